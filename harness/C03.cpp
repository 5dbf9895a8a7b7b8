// C03: data type and schema laws; schema histories; schema text round trips; layouts
// described by schemas (shorthand or explicit) applied to memory.
#include "model.hpp"
#include "pbt_main.hpp"
using namespace model; using namespace conduit;

// reference description of a leaf
struct D { int id; index_t n, off, str, eb; int end; };
static int norm_end(int e) { return e == Endianness::DEFAULT_ID ? (int)Endianness::LITTLE_ID : e; }
static D gen_d(Source &s)
{
    static const int ids[11] = {NUM_IDS[0], NUM_IDS[1], NUM_IDS[2], NUM_IDS[3], NUM_IDS[4], NUM_IDS[5], NUM_IDS[6], NUM_IDS[7], NUM_IDS[8], NUM_IDS[9], DataType::CHAR8_STR_ID};
    D d; d.id = ids[s.draw(10)]; d.eb = ebytes(d.id);
    d.n = s.len(9); d.off = s.chance(1, 2) ? s.range(0, 40) : 0;
    d.str = s.coin() ? d.eb : d.eb + s.range(0, 12);
    d.end = s.pick<int>({Endianness::DEFAULT_ID, Endianness::BIG_ID, Endianness::LITTLE_ID});
    return d;
}
static DataType mk(const D &d) { return DataType(d.id, d.n, d.off, d.str, d.eb, d.end); }
static std::string show(const D &d)
{ std::ostringstream o; o << idname(d.id) << " n" << d.n << " off" << d.off << " str" << d.str << " end" << d.end; return o.str(); }
static void same_dt(const DataType &t, const D &d, bool text, const std::string &what)
{
    bool ok = t.id() == d.id && t.number_of_elements() == d.n && t.offset() == d.off && t.stride() == d.str && t.element_bytes() == d.eb
        && (text ? norm_end((int)t.endianness()) == norm_end(d.end) : (int)t.endianness() == d.end);
    CHECK(ok, what << ": got " << t.to_json(0, 0, "", "") << " expected " << show(d));
}

PBT(datatype_laws, 60000, 600000)
{
    quiet();
    D d = gen_d(s); DataType t = mk(d);
    if(c.want_desc) c.desc << show(d);
    c.nontrivial(d.n >= 2);
    same_dt(t, d, false, "constructor by id");
    same_dt(DataType(std::string(idname(d.id)), d.n, d.off, d.str, d.eb, d.end), d, false, "constructor by name");
    { DataType u; u.set(d.id, d.n, d.off, d.str, d.eb, d.end); same_dt(u, d, false, "set by id"); }
    { DataType u; u.set(std::string(idname(d.id)), d.n, d.off, d.str, d.eb, d.end); same_dt(u, d, false, "set by name"); }
    { DataType u(t); same_dt(u, d, false, "copy"); DataType v; v = t; same_dt(v, d, false, "assign"); DataType w; w.set(t); same_dt(w, d, false, "set"); v.reset(); CHECK(v.is_empty(), "reset"); }
    { DataType u; u.set_id(d.id); u.set_number_of_elements(d.n); u.set_offset(d.off); u.set_stride(d.str); u.set_element_bytes(d.eb); u.set_endianness(d.end); same_dt(u, d, false, "setters"); }
    CHECK_EQ(t.name(), std::string(idname(d.id)), "name"); CHECK_EQ(DataType::name_to_id(idname(d.id)), d.id, "name_to_id");
    CHECK_EQ(DataType::id_to_name(d.id), std::string(idname(d.id)), "id_to_name");
    // sizes
    CHECK_EQ(t.bytes_compact(), d.n * d.eb, "bytes_compact");
    index_t ext = d.n ? d.str * (d.n - 1) + d.eb : 0;
    CHECK_EQ(t.strided_bytes(), ext, "strided_bytes"); CHECK_EQ(t.spanned_bytes(), d.off + ext, "spanned_bytes");
    CHECK_EQ(t.is_compact(), d.off + ext == d.n * d.eb, "is_compact");
    for(index_t i = 0; i < d.n + 2; i++) CHECK_EQ(t.element_index(i), d.off + i * d.str, "element_index");
    { DataType u; t.compact_to(u); D e = d; e.off = 0; e.str = d.eb; same_dt(u, e, false, "compact_to"); CHECK(u.is_compact(), "compact_to is compact"); }
    // predicates
    bool flt = model::is_float(d.id), sgn = model::is_signed(d.id), str = d.id == DataType::CHAR8_STR_ID;
    CHECK_EQ(t.is_number(), !str, "is_number"); CHECK_EQ(t.is_floating_point(), flt, "is_floating_point"); CHECK_EQ(t.is_integer(), !str && !flt, "is_integer");
    CHECK_EQ(t.is_signed_integer(), sgn, "is_signed_integer"); CHECK_EQ(t.is_unsigned_integer(), !str && !flt && !sgn, "is_unsigned_integer");
    CHECK_EQ(t.is_string(), str, "is_string"); CHECK_EQ(t.is_char8_str(), str, "is_char8_str"); CHECK(!t.is_empty() && !t.is_object() && !t.is_list(), "role");
    CHECK_EQ(t.is_int8(), d.id == DataType::INT8_ID, ""); CHECK_EQ(t.is_int16(), d.id == DataType::INT16_ID, ""); CHECK_EQ(t.is_int32(), d.id == DataType::INT32_ID, ""); CHECK_EQ(t.is_int64(), d.id == DataType::INT64_ID, "");
    CHECK_EQ(t.is_uint8(), d.id == DataType::UINT8_ID, ""); CHECK_EQ(t.is_uint16(), d.id == DataType::UINT16_ID, ""); CHECK_EQ(t.is_uint32(), d.id == DataType::UINT32_ID, ""); CHECK_EQ(t.is_uint64(), d.id == DataType::UINT64_ID, "");
    CHECK_EQ(t.is_float32(), d.id == DataType::FLOAT32_ID, ""); CHECK_EQ(t.is_float64(), d.id == DataType::FLOAT64_ID, "");
    CHECK_EQ(t.is_index_t(), d.id == DataType::INT64_ID || false, "is_index_t");
    CHECK_EQ(t.is_char(), d.id == CONDUIT_NATIVE_CHAR_ID, "is_char"); CHECK_EQ(t.is_short(), d.id == DataType::INT16_ID, "is_short"); CHECK_EQ(t.is_int(), d.id == DataType::INT32_ID, "is_int"); CHECK_EQ(t.is_long(), d.id == DataType::INT64_ID, "is_long");
    CHECK_EQ(t.is_signed_char(), d.id == DataType::INT8_ID, ""); CHECK_EQ(t.is_signed_short(), d.id == DataType::INT16_ID, ""); CHECK_EQ(t.is_signed_int(), d.id == DataType::INT32_ID, ""); CHECK_EQ(t.is_signed_long(), d.id == DataType::INT64_ID, "");
    CHECK_EQ(t.is_unsigned_char(), d.id == DataType::UINT8_ID, ""); CHECK_EQ(t.is_unsigned_short(), d.id == DataType::UINT16_ID, ""); CHECK_EQ(t.is_unsigned_int(), d.id == DataType::UINT32_ID, ""); CHECK_EQ(t.is_unsigned_long(), d.id == DataType::UINT64_ID, "");
    CHECK_EQ(t.is_float(), d.id == DataType::FLOAT32_ID, ""); CHECK_EQ(t.is_double(), d.id == DataType::FLOAT64_ID, "");
    CHECK_EQ(t.is_little_endian(), norm_end(d.end) == Endianness::LITTLE_ID, "is_little_endian"); CHECK_EQ(t.is_big_endian(), d.end == Endianness::BIG_ID, "is_big_endian");
    CHECK_EQ(t.endianness_matches_machine(), norm_end(d.end) == Endianness::LITTLE_ID, "endianness_matches_machine");
    CHECK_EQ(DataType::default_bytes(d.id), d.eb, "default_bytes"); CHECK_EQ(DataType::default_bytes(std::string(idname(d.id))), d.eb, "default_bytes by name");
    if(d.id != DataType::CHAR8_STR_ID) { DataType u = DataType::default_dtype(d.id); CHECK(u.id() == d.id && u.element_bytes() == d.eb && u.stride() == d.eb && u.offset() == 0, "default_dtype");
      CHECK(DataType::default_dtype(std::string(idname(d.id))).equals(u), "default_dtype by name"); }
    // factories
    { DataType u;
      switch(d.id)
      {
        case DataType::INT8_ID: u = DataType::int8(d.n, d.off, d.str, d.eb, d.end); break; case DataType::INT16_ID: u = DataType::int16(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::INT32_ID: u = DataType::int32(d.n, d.off, d.str, d.eb, d.end); break; case DataType::INT64_ID: u = DataType::int64(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::UINT8_ID: u = DataType::uint8(d.n, d.off, d.str, d.eb, d.end); break; case DataType::UINT16_ID: u = DataType::uint16(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::UINT32_ID: u = DataType::uint32(d.n, d.off, d.str, d.eb, d.end); break; case DataType::UINT64_ID: u = DataType::uint64(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::FLOAT32_ID: u = DataType::float32(d.n, d.off, d.str, d.eb, d.end); break; case DataType::FLOAT64_ID: u = DataType::float64(d.n, d.off, d.str, d.eb, d.end); break;
        default: u = DataType::char8_str(d.n, d.off, d.str, d.eb, d.end); break;
      }
      same_dt(u, d, false, "factory");
      switch(d.id)
      {
        case DataType::INT8_ID: u = DataType::c_signed_char(d.n, d.off, d.str, d.eb, d.end); break; case DataType::INT16_ID: u = s.coin() ? DataType::c_short(d.n, d.off, d.str, d.eb, d.end) : DataType::c_signed_short(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::INT32_ID: u = s.coin() ? DataType::c_int(d.n, d.off, d.str, d.eb, d.end) : DataType::c_signed_int(d.n, d.off, d.str, d.eb, d.end); break; case DataType::INT64_ID: u = s.coin() ? DataType::c_long(d.n, d.off, d.str, d.eb, d.end) : s.coin() ? DataType::c_signed_long(d.n, d.off, d.str, d.eb, d.end) : DataType::index_t(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::UINT8_ID: u = DataType::c_unsigned_char(d.n, d.off, d.str, d.eb, d.end); break; case DataType::UINT16_ID: u = DataType::c_unsigned_short(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::UINT32_ID: u = DataType::c_unsigned_int(d.n, d.off, d.str, d.eb, d.end); break; case DataType::UINT64_ID: u = DataType::c_unsigned_long(d.n, d.off, d.str, d.eb, d.end); break;
        case DataType::FLOAT32_ID: u = DataType::c_float(d.n, d.off, d.str, d.eb, d.end); break; case DataType::FLOAT64_ID: u = DataType::c_double(d.n, d.off, d.str, d.eb, d.end); break;
        default: break;
      }
      same_dt(u, d, false, "native factory"); }
    // equality and compatibility against a second, often nearly equal, type
    D e = d; int k = (int)s.range(0, 6);
    if(k == 1) e.n += s.range(-1, 1); else if(k == 2) e.off++; else if(k == 3) e.str++; else if(k == 4) e.end = Endianness::BIG_ID; else if(k == 5) e.id = NUM_IDS[s.draw(9)]; else if(k == 6) e = gen_d(s);
    if(e.n < 0) e.n = 0;
    if(k == 5) { e.eb = ebytes(e.id); }
    DataType u = mk(e);
    bool eq = d.id == e.id && d.n == e.n && d.off == e.off && d.str == e.str && d.eb == e.eb && d.end == e.end;
    CHECK_EQ(t.equals(u), eq, "equals " << show(e)); CHECK_EQ(u.equals(t), eq, "equals is symmetric");
    CHECK_EQ(t.compatible(u), d.id == e.id && d.eb == e.eb && d.n >= e.n, "compatible " << show(e));
    // text
    index_t indent = s.range(0, 4), depth = s.range(0, 2);
    std::string js = s.coin() ? t.to_json(indent, depth) : t.to_json(); Schema sj(js); same_dt(sj.dtype(), d, true, "json text " + js);
    CHECK_EQ(t.to_string("json", indent, depth), t.to_json(indent, depth), "to_string json");
    Node yn; yn.parse(t.to_yaml(), "yaml");
    CHECK(yn["dtype"].as_string() == idname(d.id) && yn["number_of_elements"].to_index_t() == d.n && yn["offset"].to_index_t() == d.off && yn["stride"].to_index_t() == d.str
        && yn["element_bytes"].to_index_t() == d.eb && yn["endianness"].as_string() == (norm_end(d.end) == Endianness::BIG_ID ? "big" : "little"), "yaml text " << t.to_yaml());
}

// ------------------------------------------------------------------ schemas
struct S
{
    int id; D d; std::vector<std::pair<std::string, S> > kids;
    S() : id(DataType::EMPTY_ID) {}
    bool obj() const { return id == DataType::OBJECT_ID; } bool list() const { return id == DataType::LIST_ID; }
    bool leaf() const { return !obj() && !list() && id != DataType::EMPTY_ID; }
    int find(const std::string &n) const { if(!obj()) return -1; for(size_t i = 0; i < kids.size(); i++) if(kids[i].first == n) return (int)i; return -1; }
    S &child(const std::string &n) { if(!obj()) { *this = S(); id = DataType::OBJECT_ID; } int i = find(n); if(i < 0) { kids.push_back({n, S()}); i = (int)kids.size() - 1; } return kids[i].second; }
    size_t count() const { size_t n = 1; for(auto &k : kids) n += k.second.count(); return n; }
    void print(std::ostream &o) const
    {
        if(leaf()) o << "(" << show(d) << ")"; else if(id == DataType::EMPTY_ID) o << "(empty)";
        else { o << (obj() ? "{" : "["); for(auto &k : kids) { if(obj()) o << pbt::json_str(k.first) << ":"; k.second.print(o); o << " "; } o << (obj() ? "}" : "]"); }
    }
    std::string str() const { std::ostringstream o; print(o); return o.str(); }
};
static S gen_s(Source &s, const GenOpts &g, int depth = 0)
{
    S r; int k = depth >= 4 ? 0 : depth == 0 ? s.weighted({1, 6, 3}) : s.weighted({6, 4, 2});
    if(k == 0) { if(s.chance(1, 12)) return r; r.d = gen_d(s); r.id = r.d.id; return r; }
    r.id = k == 1 ? DataType::OBJECT_ID : DataType::LIST_ID;
    int n = s.len(6);
    for(int i = 0; i < n; i++)
    {
        std::string nm = k == 1 ? gen_name(s, g) : "";
        if(k == 1 && r.find(nm) >= 0) continue;
        r.kids.push_back({nm, gen_s(s, g, depth + 1)});
    }
    return r;
}
static void build_s(Source &s, Schema &x, const S &m)
{
    if(m.leaf()) { if(s.coin()) x.set(mk(m.d)); else x = mk(m.d); }
    else if(m.obj()) { x.set(DataType::object()); for(auto &k : m.kids) { bool sl = k.first.find('/') != std::string::npos; build_s(s, !sl && !k.first.empty() && s.coin() ? (s.coin() ? x.fetch(k.first) : x[k.first]) : x.add_child(k.first), k.second); } }
    else if(m.list()) { x.set(DataType::list()); for(auto &k : m.kids) build_s(s, x.append(), k.second); }
}
static index_t strided(const S &m) { if(m.leaf()) return m.d.n ? m.d.str * (m.d.n - 1) + m.d.eb : 0; index_t r = 0; for(auto &k : m.kids) r += strided(k.second); return r; }
static index_t compactb(const S &m) { if(m.leaf()) return m.d.n * m.d.eb; index_t r = 0; for(auto &k : m.kids) r += compactb(k.second); return r; }
static void same_s(const Schema &x, const S &m, bool text, const std::string &what, const Schema *parent = NULL)
{
    CHECK_EQ((int)x.dtype().id(), m.id, what << " " << m.str());
    CHECK(x.parent() == parent && x.is_root() == (parent == NULL), what << ": parent link");
    if(m.leaf()) { same_dt(x.dtype(), m.d, text, what); CHECK_EQ(x.number_of_children(), (index_t)0, what); return; }
    CHECK_EQ(x.number_of_children(), (index_t)m.kids.size(), what << " " << m.str());
    for(size_t i = 0; i < m.kids.size(); i++)
    {
        const Schema &k = x.child((index_t)i);
        CHECK(&k == &x[(index_t)i] && &k == x.child_ptr((index_t)i), what);
        if(m.obj())
        {
            const std::string &nm = m.kids[i].first;
            CHECK_EQ(x.child_name((index_t)i), nm, what); CHECK_EQ(x.child_names()[i], nm, what); CHECK_EQ(x.child_index(nm), (index_t)i, what);
            CHECK(x.has_child(nm) && &x.child(nm) == &k, what << ": child by name");
            if(nm.find('/') == std::string::npos) { CHECK(x.has_path(nm) && &x.fetch_existing(nm) == &k && &x[nm] == &k && x.fetch_ptr(nm) == &k, what << ": fetch " << nm); CHECK_EQ(k.name(), nm, what); }
        }
        else CHECK_EQ(k.name(), "[" + std::to_string(i) + "]", what);
        same_s(k, m.kids[i].second, text, what, &x);
    }
    if(m.obj()) CHECK_EQ(x.child_names().size(), m.kids.size(), what);
    CHECK(!x.has_child("no such") && !x.has_path("no such/child"), what);
}
static bool eq_s(const S &a, const S &b)      // child order of objects does not matter
{
    if(a.id != b.id) return false;
    if(a.leaf()) return a.d.n == b.d.n && a.d.off == b.d.off && a.d.str == b.d.str && a.d.eb == b.d.eb && a.d.end == b.d.end;
    if(a.kids.size() != b.kids.size()) return false;
    for(size_t i = 0; i < a.kids.size(); i++)
    {
        size_t j = i; if(a.obj()) { int f = b.find(a.kids[i].first); if(f < 0) return false; j = f; }
        if(!eq_s(a.kids[i].second, b.kids[j].second)) return false;
    }
    return true;
}
static bool compat_s(const S &a, const S &b)
{
    if(a.id != b.id) return false;
    if(a.leaf()) return a.d.eb == b.d.eb && a.d.n >= b.d.n;
    if(a.list() && a.kids.size() < b.kids.size()) return false;
    for(size_t i = 0; i < b.kids.size(); i++)
    {
        size_t j = i; if(a.obj()) { int f = a.find(b.kids[i].first); if(f < 0) continue; j = f; }
        if(!compat_s(a.kids[j].second, b.kids[i].second)) return false;
    }
    return true;
}
static void nodes_of(S &m, std::vector<S *> &v) { v.push_back(&m); for(auto &k : m.kids) nodes_of(k.second, v); }
static void edit(Source &s, S &m, const GenOpts &g)
{
    std::vector<S *> v; nodes_of(m, v); S &x = *v[s.draw(v.size() - 1)];
    int k = (int)s.range(0, 6);
    if(x.leaf())
    {
        if(k == 0) x.d.n += 1; else if(k == 1 && x.d.n > 0) x.d.n -= 1; else if(k == 2) x.d.off += 1; else if(k == 3) { if(x.d.n) x.d.str += 1; }
        else if(k == 4) x.d.end = Endianness::BIG_ID; else if(k == 5) { x.d.id = x.id = NUM_IDS[s.draw(9)]; x.d.eb = ebytes(x.id); x.d.str = x.d.eb; } else x = gen_s(s, g, 3);
    }
    else if(k == 0 || x.kids.empty()) { if(x.obj()) { std::string nm = gen_name(s, g); if(x.find(nm) < 0) x.kids.push_back({nm, gen_s(s, g, 3)}); } else if(x.list()) x.kids.push_back({"", gen_s(s, g, 3)}); }
    else if(k == 1) x.kids.erase(x.kids.begin() + s.draw(x.kids.size() - 1));
    else if(k == 2) x.kids.pop_back();
    else if(k == 3) std::swap(x.kids[0], x.kids[s.draw(x.kids.size() - 1)]);
    else if(k == 4 && x.obj()) { std::string nm = gen_name(s, g); if(x.find(nm) < 0) x.kids[s.draw(x.kids.size() - 1)].first = nm; }
    else if(k == 5) std::rotate(x.kids.begin(), x.kids.begin() + 1, x.kids.end());
    // k==6: no change
    if(x.list()) for(auto &q : x.kids) q.first = "";
}

PBT(schema_relations, 60000, 400000)
{
    quiet(); GenOpts g; g.slash_names = true;
    S m = gen_s(s, g); Schema x; build_s(s, x, m);
    if(c.want_desc) c.desc << m.str();
    c.nontrivial(m.count() >= 3);
    same_s(x, m, false, "build");
    CHECK_EQ(x.total_strided_bytes(), strided(m), "total_strided_bytes"); CHECK_EQ(x.total_bytes_compact(), compactb(m), "total_bytes_compact");
    CHECK_EQ(x.is_compact(), strided(m) == compactb(m), "is_compact");
    Schema cp(x); same_s(cp, m, false, "copy"); CHECK(cp.equals(x) && x.equals(cp) && x.equals(x), "a copy equals the original " << m.str()); CHECK(x.compatible(cp), "a copy is compatible");
    { Schema y; y = x; same_s(y, m, false, "assign"); Schema z(DataType::float64(3)); z.set(x); same_s(z, m, false, "set"); }
    // compact_to: same tree, leaves packed one after the other in order
    Schema k; if(s.coin()) build_s(s, k, gen_s(s, g)); x.compact_to(k);
    { S w = m; index_t off = 0; std::function<void(S &)> pk = [&](S &q) { if(q.leaf()) { q.d.off = off; q.d.str = q.d.eb; off += q.d.n * q.d.eb; } for(auto &z : q.kids) pk(z.second); }; pk(w);
      same_s(k, w, false, "compact_to"); CHECK(k.is_compact(), "compact_to is compact"); CHECK_EQ(k.total_strided_bytes(), compactb(m), "compact size"); }
    S m2 = m; int ne = (int)s.range(0, 2); for(int i = 0; i < ne; i++) edit(s, m2, g);
    Schema x2; build_s(s, x2, m2);
    if(c.want_desc) c.desc << " vs " << m2.str();
    CHECK_EQ(x.equals(x2), eq_s(m, m2), m.str() << " equals " << m2.str()); CHECK_EQ(x2.equals(x), eq_s(m, m2), "equals is symmetric");
    CHECK_EQ(x.compatible(x2), compat_s(m, m2), m.str() << " compatible " << m2.str()); CHECK_EQ(x2.compatible(x), compat_s(m2, m), m2.str() << " compatible " << m.str());
    c.label(eq_s(m, m2) ? "equal" : "different"); if(compat_s(m, m2) && !eq_s(m, m2)) c.label("compatible only");
}

PBT(schema_history, 50000, 400000)
{
    quiet(); GenOpts g; g.slash_names = true;
    S m; Schema x; int n = 1 + s.len(24), did = 0;
    auto errs = [&](std::function<void()> f) { try { f(); } catch(const conduit::Error &) { return true; } return false; };
    for(int i = 0; i < n; i++)
    {
        // pick a place
        std::vector<std::pair<S *, Schema *> > v;
        std::function<void(S &, Schema &)> w = [&](S &a, Schema &b) { v.push_back({&a, &b}); for(size_t q = 0; q < a.kids.size(); q++) w(a.kids[q].second, b.child((index_t)q)); };
        w(m, x);
        auto at = v[s.draw(v.size() - 1)]; S &a = *at.first; Schema &b = *at.second;
        std::string nm = gen_name(s, g), n2 = gen_name(s, g); bool sl = nm.find('/') != std::string::npos, sl2 = n2.find('/') != std::string::npos;
        int op = (int)s.range(0, 12);
        if(c.want_desc) c.desc << op << "(" << nm << "," << n2 << ") ";
        switch(op)
        {
            case 0: if(!sl) { b.fetch(nm); a.child(nm); } break;
            case 1: if(!sl && !sl2) { Schema &r = s.coin() ? b.fetch(nm + "/" + n2) : b[nm + "/" + n2]; S &ra = a.child(nm).child(n2); if(!ra.obj() && !ra.list()) { D d = gen_d(s); r.set(mk(d)); ra = S(); ra.d = d; ra.id = d.id; } } break;
            case 2: b.add_child(nm); a.child(nm); break;
            case 3: if(a.list() || a.leaf() || a.id == DataType::EMPTY_ID || (a.obj() && a.kids.empty())) { b.append(); if(!a.list()) { a = S(); a.id = DataType::LIST_ID; } a.kids.push_back({"", S()}); } break;
            case 4: if(a.find(nm) >= 0) { if(sl || s.coin()) b.remove_child(nm); else b.remove(nm); a.kids.erase(a.kids.begin() + a.find(nm)); did++; } else CHECK(errs([&]() { b.remove_child(nm); }), "remove_child of a missing name " << nm); break;
            case 5: if(!a.kids.empty()) { index_t q = s.draw(a.kids.size() - 1); b.remove(q); a.kids.erase(a.kids.begin() + q); did++; }
                    else CHECK(errs([&]() { b.remove((index_t)0); }), "remove(0) without children"); break;
            case 6: { bool ok = a.find(nm) >= 0 && a.find(n2) < 0; bool e = errs([&]() { b.rename_child(nm, n2); }); CHECK_EQ(e, !ok, "rename_child " << nm << " to " << n2); if(ok) { a.kids[a.find(nm)].first = n2; did++; } break; }
            case 7: { D d = gen_d(s); b.set(mk(d)); a = S(); a.d = d; a.id = d.id; break; }
            case 8: { S q = gen_s(s, g, 2); Schema y; build_s(s, y, q); if(s.coin()) b = y; else b.set(y); a = q; did++; break; }
            case 9: b.reset(); a = S(); break;
            case 10: { bool ok = a.find(nm) >= 0 && !sl; if(!sl) CHECK_EQ(errs([&]() { b.fetch_existing(nm); }), !ok, "fetch_existing " << nm); if(!sl) CHECK_EQ(b.has_path(nm), ok, "has_path");
                       CHECK_EQ(errs([&]() { b.child(nm); }), a.find(nm) < 0, "child " << nm); CHECK_EQ(b.has_child(nm), a.find(nm) >= 0, "has_child"); break; }
            case 11: if(a.obj() && b.parent() && b.parent()->dtype().is_object() && !sl)
                     { bool ok = b.parent()->has_child(nm); CHECK_EQ(errs([&]() { Schema &r = b.fetch_existing("../" + nm); CHECK(&r == &b.parent()->child(nm), "../" << nm); }), !ok, "fetch_existing ../" << nm);
                       const Schema &cb = b; CHECK_EQ(errs([&]() { cb.fetch_existing("../" + nm); }), !ok, "const fetch_existing ../" << nm); did++; } break;
            case 12: if(!a.kids.empty() && a.obj()) { const std::string &kn = a.kids[s.draw(a.kids.size() - 1)].first; S &ka = a.child(kn); if(ka.obj() && !ka.kids.empty() && kn.find('/') == std::string::npos)
                     { std::string k2 = ka.kids[s.draw(ka.kids.size() - 1)].first; if(k2.find('/') == std::string::npos) { CHECK(b.has_path(kn + "/" + k2) && b.has_path("/" + kn + "/" + k2), "has_path"); CHECK(&b.fetch_existing(kn + "/" + k2) == &b.child(kn).child(k2), "path");
                       if(s.coin()) { b.remove(kn + "/" + k2); ka.kids.erase(ka.kids.begin() + ka.find(k2)); did++; } } } } break;
        }
        same_s(x, m, false, "after op " + std::to_string(op));
    }
    c.nontrivial(did >= 2 && m.count() >= 4);
}

PBT(schema_text, 32000, 200000)
{
    quiet(); GenOpts g;
    S m = gen_s(s, g);
    std::function<void(S &)> ren = [&](S &q) { for(auto &k : q.kids) { if(k.first == "dtype") k.first = "dtype_"; ren(k.second); } }; ren(m);
    { bool dup = false; std::function<void(S &)> f = [&](S &q) { if(q.obj()) { std::set<std::string> z; for(auto &k : q.kids) dup |= !z.insert(k.first).second; } for(auto &k : q.kids) f(k.second); }; f(m); if(dup) throw pbt::Discard(); }
    Schema x; build_s(s, x, m);
    if(c.want_desc) c.desc << m.str();
    c.nontrivial(m.count() >= 3);
    index_t ind = s.range(0, 4), dep = s.range(0, 2); std::string pad = s.pick<std::string>({" ", "\t"}), eoe = s.pick<std::string>({"\n", "\n\n", " "});
    std::string t = x.to_json(ind, dep, pad, eoe);
    Schema y; if(s.coin()) y.set(t); else y = t; same_s(y, m, true, "json text " + t);
    CHECK_EQ(x.to_string("json", ind, dep, pad, eoe), t, "to_string"); std::ostringstream o; x.to_json_stream(o, ind, dep, pad, eoe); CHECK_EQ(o.str(), t, "to_json_stream");
    { std::ostringstream o2; x.to_string_stream(o2, "json", ind, dep, pad, eoe); CHECK_EQ(o2.str(), t, "to_string_stream"); }
    { Generator gen(t, "conduit_json"); Schema z; gen.walk(z); same_s(z, m, true, "Generator walk"); }
    if(s.chance(1, 8))
    {
        std::string f = c.scratch + "/s.json"; x.save(f, ind, dep, pad, eoe); Schema z(DataType::int8(2)); z.load(f); same_s(z, m, true, "save/load");
        x.to_json_stream(f, ind, dep, pad, eoe); Schema z2; z2.load(f); same_s(z2, m, true, "to_json_stream(file)");
    }
}

// ------------------------------------------------------------------ layouts described in text, applied to memory
static std::string layout_text(Source &s, S &m, index_t &cur, bool top)
{
    std::ostringstream o;
    if(m.leaf())
    {
        D &d = m.d; bool expl = s.coin();
        if(!expl) { d.n = 1; d.off = cur; d.str = d.eb; d.end = Endianness::DEFAULT_ID; }
        std::string nm = idname(d.id);
        if(s.chance(1, 4)) switch(d.id)
        { case DataType::INT8_ID: nm = "signed char"; break; case DataType::INT16_ID: nm = "short"; break; case DataType::INT32_ID: nm = "int"; break; case DataType::INT64_ID: nm = "long"; break;
          case DataType::UINT8_ID: nm = "unsigned char"; break; case DataType::UINT16_ID: nm = "unsigned short"; break; case DataType::UINT32_ID: nm = "unsigned int"; break; case DataType::UINT64_ID: nm = "unsigned long"; break;
          case DataType::FLOAT32_ID: nm = "float"; break; case DataType::FLOAT64_ID: nm = "double"; break; }
        if(!expl) o << "\"" << nm << "\"";
        else
        {
            o << "{\"dtype\": \"" << nm << "\"";
            bool cnt = s.coin(); if(!cnt) d.n = 1; if(d.n == 0) d.n = 1;
            if(cnt) o << (s.coin() ? ", \"number_of_elements\": " : ", \"length\": ") << d.n;
            if(s.chance(1, 3)) o << ", \"offset\": " << d.off; else d.off = cur;
            if(s.coin()) o << ", \"stride\": " << d.str; else d.str = d.eb;
            if(s.chance(1, 4)) o << ", \"element_bytes\": " << d.eb;
            if(d.end != Endianness::DEFAULT_ID) o << ", \"endianness\": \"" << (d.end == Endianness::BIG_ID ? "big" : "little") << "\"";
            o << "}";
        }
        cur += d.str * (d.n - 1) + d.eb;
        return o.str();
    }
    if(m.id == DataType::EMPTY_ID) { m.id = DataType::OBJECT_ID; }
    // an array of structs: {"dtype": {object}, "length": N}
    if(m.list() && !m.kids.empty() && m.kids[0].second.obj() && !top && s.coin())
    {
        S one = m.kids[0].second; int n = (int)s.range(1, 3); m.kids.clear(); index_t before = cur; std::string inner = layout_text(s, one, cur, false);
        index_t step = cur - before; bool moved = false;
        std::function<void(S &, index_t)> shift = [&](S &q, index_t by) { if(q.leaf()) q.d.off += by; for(auto &k : q.kids) shift(k.second, by); };
        // explicit offsets inside do not move: only accept structs whose text has none
        if(inner.find("offset") != std::string::npos) moved = true;
        if(moved) n = 1;
        for(int i = 0; i < n; i++) { S q = one; shift(q, i * step); m.kids.push_back({"", q}); }
        cur = before + n * step;
        o << "{\"dtype\": " << inner; if(n != 1 || s.coin()) o << ", \"length\": " << n; o << "}";      // without a length: one
        return o.str();
    }
    o << (m.obj() ? "{" : "[");
    for(size_t i = 0; i < m.kids.size(); i++)
    { if(i) o << ", "; if(m.obj()) o << "\"" << m.kids[i].first << "\": "; o << layout_text(s, m.kids[i].second, cur, false); }
    o << (m.obj() ? "}" : "]");
    return o.str();
}
static M model_at(const S &m, const std::vector<unsigned char> &mem)
{
    M r; r.id = m.id;
    if(m.leaf()) { for(index_t i = 0; i < m.d.n; i++) r.v.push_back(read_raw(&mem[m.d.off + i * m.d.str], (int)m.d.eb, m.d.end == Endianness::BIG_ID));
                   if(m.id == DataType::CHAR8_STR_ID) { size_t z = 0; while(z < r.v.size() && r.v[z]) z++; r.v.resize(z); } }
    for(auto &k : m.kids) r.kids.push_back({k.first, model_at(k.second, mem)});
    return r;
}
static index_t extent(const S &m) { if(m.leaf()) return m.d.off + m.d.str * (m.d.n - 1) + m.d.eb; index_t r = 0; for(auto &k : m.kids) r = std::max(r, extent(k.second)); return r; }
static void own_addr(const Node &n, const unsigned char *lo, const unsigned char *hi, bool inside)
{
    if(n.dtype().is_object() || n.dtype().is_list()) { for(index_t i = 0; i < n.number_of_children(); i++) own_addr(n.child(i), lo, hi, inside); return; }
    if(n.dtype().is_empty()) return;
    const unsigned char *p = (const unsigned char *)n.element_ptr(0);
    CHECK((p >= lo && p < hi) == inside, (inside ? "an external walk must refer to the caller's memory" : "a copying walk must not refer to the caller's memory"));
}
PBT(layout_in_memory, 40000, 200000)
{
    quiet(); GenOpts g; g.odd_names = false;
    S m = gen_s(s, g, s.chance(1, 10) ? 4 : 0);
    if(m.leaf() && s.coin()) { S r; r.id = DataType::OBJECT_ID; r.kids.push_back({"a", m}); m = r; }
    index_t cur = 0; std::string txt = layout_text(s, m, cur, true);
    // a string leaf has its terminator inside
    std::vector<unsigned char> mem((size_t)std::max<index_t>(extent(m), 1));
    uint64_t q = s.bits(); for(auto &b : mem) { q = pbt::mix(q); b = (unsigned char)q; }
    bool has_str = false;
    std::function<void(const S &)> term = [&](const S &x) { if(x.id == DataType::CHAR8_STR_ID) { has_str = true; mem[x.d.off + x.d.str * (x.d.n - 1)] = 0; } for(auto &k : x.kids) term(k.second); }; term(m);
    const std::vector<unsigned char> orig = mem;
    if(c.want_desc) c.desc << txt;
    c.nontrivial(m.count() >= 3);
    bool yaml = s.chance(1, 3); std::string proto = yaml ? "conduit_yaml" : "conduit_json";
    M want = model_at(m, mem);
    // the schema the text describes
    Generator gs(txt, proto); Schema x; gs.walk(x); same_s(x, m, false, proto + " schema " + txt);
    // copy
    unsigned char *lo = mem.data(), *hi = lo + mem.size();
    { Generator gen(txt, proto, mem.data()); CHECK_EQ(gen.schema(), txt, ""); CHECK_EQ(gen.protocol(), proto, ""); CHECK(gen.data_ptr() == mem.data(), "");
      Node n; if(s.coin()) n["junk"] = 3; gen.walk(n); CHECK_NODE(n, want, proto + " walk copies the described memory: " + txt); own_addr(n, lo, hi, false);
      check_views(n, want, NULL, ""); }
    { Generator gen; gen.set_schema(txt); gen.set_protocol(proto); gen.set_data_ptr(mem.data()); Node n; gen.walk_external(n); CHECK_NODE(n, want, proto + " walk_external: " + txt); own_addr(n, lo, hi, true); check_views(n, want, NULL, ""); }
    if(!yaml) { Node n(txt, mem.data(), true); CHECK_NODE(n, want, "Node(json, data, external)"); own_addr(n, lo, hi, true);
                Node n2(txt, mem.data(), false); CHECK_NODE(n2, want, "Node(json, data)"); own_addr(n2, lo, hi, false); }
    { Node n; n.set_external(x, mem.data()); CHECK_NODE(n, want, "set_external(schema, data)"); own_addr(n, lo, hi, true); check_views(n, want, NULL, "");
      CHECK(n.schema().equals(x), "set_external(schema) has that schema"); }
    { Node n; if(s.coin()) n["junk"] = 3; n.set(x, mem.data()); CHECK_NODE(n, want, "set(schema, data)"); own_addr(n, lo, hi, false); check_views(n, want, NULL, ""); }
    { bool e = s.coin(); Node n(x, mem.data(), e); CHECK_NODE(n, want, "Node(schema, data, ext)"); own_addr(n, lo, hi, e); }
    { bool e = s.coin(); Generator gen(txt, proto, mem.data()); Node n(gen, e); CHECK_NODE(n, want, "Node(generator, ext)"); own_addr(n, lo, hi, e); }
    { bool e = s.coin(); Generator gen(txt, proto, mem.data()); Node n; if(s.coin()) n["junk"] = 3; if(e) n.generate_external(gen); else n.generate(gen); CHECK_NODE(n, want, "generate(generator)"); own_addr(n, lo, hi, e); }
    { bool e = s.coin(); Node n; if(s.coin()) n["junk"] = 3; if(e) n.generate_external(txt, proto, mem.data()); else n.generate(txt, proto, mem.data()); CHECK_NODE(n, want, "generate(text, protocol, data)"); own_addr(n, lo, hi, e); }
    if(m.leaf()) { bool e = s.coin(); Node n(x.dtype(), mem.data(), e); CHECK_NODE(n, want, "Node(dtype, data, ext)"); own_addr(n, lo, hi, e); }
    { std::vector<unsigned char> z(mem.size(), 0); M zero = model_at(m, z);
      Node n(x); CHECK_NODE(n, zero, "Node(schema)"); Node n2; if(s.coin()) n2["junk"] = 3; n2.set(x); CHECK_NODE(n2, zero, "set(schema)"); check_views(n2, zero, NULL, "");
      Node n3; Generator gen(txt, proto); gen.walk(n3); CHECK_EQ(n3.schema().total_bytes_compact(), compactb(m), "walk without data"); }
    CHECK(mem == orig, "reading changed the caller's memory");
}
PBT_MAIN()

// A value-semantics reference model of a conduit tree, generators for it, ways of
// building a Node from it, and a comparison that reads a Node's raw bytes itself
// (it uses neither conduit's accessors, nor diff, nor equals).
#ifndef MODEL_HPP
#define MODEL_HPP
#include "pbt_core.hpp"
#include "conduit.hpp"
#include <memory>
#include <limits>
#include <algorithm>

namespace model {
using conduit::Node; using conduit::DataType; using conduit::Schema; using conduit::index_t;
using pbt::Source; using pbt::Fail;

static const int NUM_IDS[10] = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID,
    DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID,
    DataType::FLOAT32_ID, DataType::FLOAT64_ID};

inline int ebytes(int id)
{
    switch(id)
    {
        case DataType::INT8_ID: case DataType::UINT8_ID: case DataType::CHAR8_STR_ID: return 1;
        case DataType::INT16_ID: case DataType::UINT16_ID: return 2;
        case DataType::INT32_ID: case DataType::UINT32_ID: case DataType::FLOAT32_ID: return 4;
        default: return 8;
    }
}
inline const char *idname(int id)
{
    switch(id)
    {
        case DataType::EMPTY_ID: return "empty"; case DataType::OBJECT_ID: return "object";
        case DataType::LIST_ID: return "list"; case DataType::INT8_ID: return "int8";
        case DataType::INT16_ID: return "int16"; case DataType::INT32_ID: return "int32";
        case DataType::INT64_ID: return "int64"; case DataType::UINT8_ID: return "uint8";
        case DataType::UINT16_ID: return "uint16"; case DataType::UINT32_ID: return "uint32";
        case DataType::UINT64_ID: return "uint64"; case DataType::FLOAT32_ID: return "float32";
        case DataType::FLOAT64_ID: return "float64"; case DataType::CHAR8_STR_ID: return "char8_str";
    }
    return "?";
}
inline bool is_float(int id) { return id == DataType::FLOAT32_ID || id == DataType::FLOAT64_ID; }
inline bool is_signed(int id) { return id >= DataType::INT8_ID && id <= DataType::INT64_ID; }

// ---- raw bit patterns <-> values
inline double bits_f64(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline float bits_f32(uint64_t b) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
inline uint64_t f64_bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline uint64_t f32_bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t mask(int id, uint64_t v)
{ int n = ebytes(id); return n == 8 ? v : (v & ((1ull << (8 * n)) - 1)); }
inline int64_t bits_i(int id, uint64_t v)     // signed value
{
    switch(ebytes(id)) { case 1: return (int8_t)v; case 2: return (int16_t)v; case 4: return (int32_t)v; }
    return (int64_t)v;
}
inline std::string valstr(int id, uint64_t v)
{
    std::ostringstream o; o.precision(17);
    if(id == DataType::FLOAT32_ID) o << bits_f32(v);
    else if(id == DataType::FLOAT64_ID) o << bits_f64(v);
    else if(is_signed(id)) o << bits_i(id, v);
    else o << v;
    return o.str();
}

struct M
{
    int id;                                     // conduit type id
    std::vector<std::pair<std::string, M> > kids;   // object (named) / list (names unused)
    std::vector<uint64_t> v;                    // numeric leaf: element bit patterns; string: bytes, no terminator
    M() : id(DataType::EMPTY_ID) {}
    bool leaf() const { return id != DataType::EMPTY_ID && id != DataType::OBJECT_ID && id != DataType::LIST_ID; }
    bool obj() const { return id == DataType::OBJECT_ID; }
    bool list() const { return id == DataType::LIST_ID; }
    bool str() const { return id == DataType::CHAR8_STR_ID; }
    bool num() const { return leaf() && !str(); }
    std::string s() const { std::string r; for(uint64_t c : v) r += (char)c; return r; }
    int find(const std::string &n) const
    { if(!obj()) return -1; for(size_t i = 0; i < kids.size(); i++) if(kids[i].first == n) return (int)i; return -1; }
    M &child(const std::string &n)        // object semantics of fetch: create if missing
    {
        if(!obj()) { *this = M(); id = DataType::OBJECT_ID; }
        int i = find(n);
        if(i < 0) { kids.push_back(std::make_pair(n, M())); i = (int)kids.size() - 1; }
        return kids[i].second;
    }
    static M String(const std::string &t) { M m; m.id = DataType::CHAR8_STR_ID; for(unsigned char c : t) m.v.push_back(c); return m; }
    static M Obj() { M m; m.id = DataType::OBJECT_ID; return m; }
    static M List() { M m; m.id = DataType::LIST_ID; return m; }
    size_t count() const { size_t n = 1; for(auto &k : kids) n += k.second.count(); return n; }
    size_t leaves() const { size_t n = leaf(); for(auto &k : kids) n += k.second.leaves(); return n; }
    int depth() const { int d = 0; for(auto &k : kids) d = std::max(d, k.second.depth() + 1); return d; }
    bool operator==(const M &o) const
    {
        if(id != o.id || v != o.v || kids.size() != o.kids.size()) return false;
        for(size_t i = 0; i < kids.size(); i++)
            if((obj() && kids[i].first != o.kids[i].first) || !(kids[i].second == o.kids[i].second)) return false;
        return true;
    }
    void print(std::ostream &o) const
    {
        if(obj() || list())
        {
            o << (obj() ? "{" : "[");
            for(size_t i = 0; i < kids.size(); i++)
            { if(i) o << ", "; if(obj()) o << pbt::json_str(kids[i].first) << ": "; kids[i].second.print(o); }
            o << (obj() ? "}" : "]");
        }
        else if(str()) o << pbt::json_str(s());
        else if(!leaf()) o << "(empty)";
        else
        {
            o << idname(id) << "("; 
            for(size_t i = 0; i < v.size() && i < 12; i++) o << (i ? " " : "") << valstr(id, v[i]);
            if(v.size() > 12) o << " ..." << v.size();
            o << ")";
        }
    }
    std::string str_() const { std::ostringstream o; print(o); return o.str(); }
};

// ------------------------------------------------------------------ generators
struct GenOpts
{
    bool strings = true, lists = true, objects = true, empties = true, nonfinite = true,
         zero_len = true, odd_names = true, slash_names = false, odd_strings = true;
    int max_depth = 4, max_kids = 6, max_ele = 12;
    bool finite_precise = false;
};

inline std::string gen_name(Source &s, const GenOpts &g)
{
    static const std::vector<std::string> base = {"a", "b", "c", "d", "e", "x", "y", "values", "coords", "n0", "n1", "ab", "aa"};
    if(!g.odd_names || !s.chance(1, 4)) return s.pick(base);
    static const std::vector<std::string> odd = {"with space", "dot.name", "UPPER", "0", "12", "-", "_", "a-b", "name:colon",
        "dtype", "offset", "\xc3\xa9", "a\"q", "back\\slash", "tab\tname", "{b}", "[0]", "#h", "'q'", "a,b", "%", "true", "null", "1.5",
        " lead", "trail ", "new\nline", "~"};
    if(g.slash_names && s.chance(1, 3)) { static const std::vector<std::string> sl = {"a/b", "/a", "a/", "x/y/z", "b/c"}; return s.pick(sl); }
    return s.pick(odd);
}
inline std::string gen_plain_name(Source &s)
{ static const std::vector<std::string> base = {"a", "b", "c", "d", "e", "x", "y", "values", "coords", "n0", "n1", "ab", "aa"}; return s.pick(base); }

inline uint64_t gen_val(Source &s, int id, bool nonfinite = true)
{
    if(id == DataType::FLOAT64_ID || id == DataType::FLOAT32_ID)
    {
        bool d = id == DataType::FLOAT64_ID;
        double x;
        switch(s.weighted({5, 4, 3, 2, nonfinite ? 1 : 0}))
        {
            case 0: x = (double)s.range(0, 20); break;
            case 1: x = (double)(int64_t)s.range(-2000, 2000) / 8.0; break;
            case 2: x = bits_f64(0x3ff0000000000000ull | (s.bits() >> 12)) * std::pow(2.0, (double)s.range(0, 60) - 30) * (s.coin() ? -1 : 1); break;
            case 3: x = s.pick<double>({-0.0, 0.1, 1.0 / 3.0, 1e-300, 1e300, 123456789.123456789, -1.5e-7, 2.5e10, 1e15, 1e16, 1e17, 4.9e-324, 1.7976931348623157e308, 1e-5}); break;
            default: x = s.pick<double>({INFINITY, -INFINITY, NAN}); break;
        }
        if(d) return f64_bits(x);
        float f = (float)x; if(!nonfinite && !std::isfinite(f)) f = 3.0e38f;
        return f32_bits(f);
    }
    uint64_t r;
    switch(s.weighted({5, 3, 3, 3}))
    {
        case 0: r = (uint64_t)s.range(0, 20); break;
        case 1: r = (uint64_t)(int64_t)s.range(-128, 127); break;
        case 2: { uint64_t top = 1ull << (8 * ebytes(id) - 1);
                  r = s.pick<uint64_t>({0, top, top - 1, ~0ull, top + 1, 1}); break; }
        default: r = s.bits(); break;
    }
    return mask(id, r);
}
inline std::string gen_string(Source &s, const GenOpts &g)
{
    int n = s.len(16); std::string r;
    static const std::string odd = "\"\\/\n\t\r\b\f'{}[]:,#&*!|>%@`~ .-_";
    for(int i = 0; i < n; i++)
    {
        int k = g.odd_strings ? s.weighted({6, 2, 1, 1}) : 0;
        if(k == 0) r += (char)('a' + s.range(0, 25));
        else if(k == 1) r += odd[s.draw(odd.size() - 1)];
        else if(k == 2) r += (char)('0' + s.range(0, 9));
        else { static const std::vector<std::string> u = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\x01"}; r += s.pick(u); }
    }
    return r;
}
inline M gen_leaf(Source &s, const GenOpts &g)
{
    M m;
    if(g.strings && s.chance(1, 5)) return M::String(gen_string(s, g));
    m.id = NUM_IDS[s.draw(9)];
    int n = s.chance(1, 3) ? 1 : s.len(g.max_ele);
    if(n == 0 && !g.zero_len) n = 1;
    for(int i = 0; i < n; i++) m.v.push_back(gen_val(s, m.id, g.nonfinite));
    return m;
}
inline M gen_tree(Source &s, const GenOpts &g, int depth = 0)
{
    int k;
    if(depth >= g.max_depth) k = 0;
    else if(depth == 0) k = s.weighted({1, 8, 3});
    else k = s.weighted({6, 4, 2});
    if(k == 2 && !g.lists) k = 1;
    if(k == 1 && !g.objects) k = 0;
    if(k == 0)
    {
        if(g.empties && s.chance(1, 12)) return M();
        return gen_leaf(s, g);
    }
    int n = s.len(g.max_kids);
    if(n == 0 && !g.zero_len) n = 1;
    M m = k == 1 ? M::Obj() : M::List();
    for(int i = 0; i < n; i++)
    {
        if(k == 1)
        {
            std::string nm = gen_name(s, g);
            if(m.find(nm) >= 0) continue;
            m.kids.push_back(std::make_pair(nm, gen_tree(s, g, depth + 1)));
        }
        else m.kids.push_back(std::make_pair(std::string(), gen_tree(s, g, depth + 1)));
    }
    return m;
}

// ------------------------------------------------------------------ reading a Node
inline uint64_t read_raw(const unsigned char *p, int nb, bool big)
{
    uint64_t r = 0;
    for(int i = 0; i < nb; i++) r |= (uint64_t)p[big ? nb - 1 - i : i] << (8 * i);
    return r;
}
inline void write_raw(unsigned char *p, int nb, bool big, uint64_t v)
{ for(int i = 0; i < nb; i++) p[big ? nb - 1 - i : i] = (unsigned char)(v >> (8 * i)); }

// the address of element i, from the description alone
inline const unsigned char *ele_addr(const Node &n, index_t i)
{
    const DataType &d = n.dtype();
    return (const unsigned char *)n.data_ptr() + d.offset() + i * d.stride();
}
inline M read(const Node &n)
{
    M m; m.id = (int)n.dtype().id();
    if(m.obj() || m.list())
    {
        index_t k = n.number_of_children();
        for(index_t i = 0; i < k; i++)
            m.kids.push_back(std::make_pair(m.obj() ? n.child_names()[i] : std::string(), read(n.child(i))));
    }
    else if(m.leaf())
    {
        const DataType &d = n.dtype();
        bool big = d.endianness() == conduit::Endianness::BIG_ID;
        for(index_t i = 0; i < d.number_of_elements(); i++) m.v.push_back(read_raw(ele_addr(n, i), (int)d.element_bytes(), big));
        if(m.str())
        {   // up to the terminator
            size_t z = 0; while(z < m.v.size() && m.v[z]) z++;
            if(z == m.v.size() && z) throw Fail("string leaf without a terminator");
            m.v.resize(z);
        }
    }
    return m;
}
inline bool same_val(int id, uint64_t a, uint64_t b)
{
    if(a == b) return true;
    if(id == DataType::FLOAT64_ID) return std::isnan(bits_f64(a)) && std::isnan(bits_f64(b));
    if(id == DataType::FLOAT32_ID) return std::isnan(bits_f32(a)) && std::isnan(bits_f32(b));
    return false;
}
// "" if equal, else what differs first
inline std::string diff(const M &got, const M &want, const std::string &path = "")
{
    std::ostringstream o;
    if(got.id != want.id) { o << "at '" << path << "': type " << idname(got.id) << ", expected " << idname(want.id); return o.str(); }
    if(got.leaf())
    {
        if(got.v.size() != want.v.size()) { o << "at '" << path << "': " << got.v.size() << " elements, expected " << want.v.size(); return o.str(); }
        for(size_t i = 0; i < got.v.size(); i++)
            if(!same_val(got.id, got.v[i], want.v[i]))
            { o << "at '" << path << "'[" << i << "]: " << valstr(got.id, got.v[i]) << ", expected " << valstr(want.id, want.v[i]); return o.str(); }
        return "";
    }
    if(got.kids.size() != want.kids.size()) { o << "at '" << path << "': " << got.kids.size() << " children, expected " << want.kids.size(); return o.str(); }
    for(size_t i = 0; i < got.kids.size(); i++)
    {
        if(got.obj() && got.kids[i].first != want.kids[i].first)
        { o << "at '" << path << "': child " << i << " named '" << got.kids[i].first << "', expected '" << want.kids[i].first << "'"; return o.str(); }
        std::string r = diff(got.kids[i].second, want.kids[i].second, path + "/" + (got.obj() ? got.kids[i].first : "[" + std::to_string(i) + "]"));
        if(!r.empty()) return r;
    }
    return "";
}
inline std::string diff(const Node &n, const M &want) { return diff(read(n), want); }
#define CHECK_NODE(node, m, msg) \
    do { std::string _d = model::diff(node, m); if(!_d.empty()) { std::ostringstream _o; _o << msg << ": " << _d \
         << "\n  got      " << model::read(node).str_() << "\n  expected " << (m).str_() << " [" << __LINE__ << "]"; throw pbt::Fail(_o.str()); } } while(0)

// ------------------------------------------------------------------ building a Node
// External memory with exact extents: one heap block per leaf, so that the address
// sanitizer sees any access outside it; the gap bytes of strided layouts hold a
// pattern that is checked afterwards.
struct Arena
{
    struct Block { std::unique_ptr<unsigned char[]> p; size_t n; DataType dt; };
    std::vector<Block> blocks;
    static unsigned char pat(size_t i) { return (unsigned char)(0xA5 ^ (i * 7)); }
    // offset 0, stride >= element size, chosen by the source
    unsigned char *leaf(Source &s, const M &m, DataType &dt, bool allow_big, bool allow_layout)
    {
        int eb = ebytes(m.id); index_t n = (index_t)m.v.size() + (m.str() ? 1 : 0);
        index_t off = 0, stride = eb; bool big = false;
        if(allow_layout && !m.str())
        {
            if(s.chance(1, 2)) off = s.range(0, 3) * eb;
            if(s.chance(1, 2)) stride = eb * s.range(1, 4);
            if(allow_big) big = s.chance(1, 3);
        }
        size_t nb = n == 0 ? (size_t)off : (size_t)(off + stride * (n - 1) + eb);
        Block b; b.p.reset(new unsigned char[nb ? nb : 1]); b.n = nb;
        for(size_t i = 0; i < nb; i++) b.p[i] = pat(i);
        for(index_t i = 0; i < n; i++)
            write_raw(&b.p[off + stride * i], eb, big, m.str() && i == n - 1 ? 0 : m.v[i]);
        b.dt = DataType(m.id, n, off, stride, eb, big ? conduit::Endianness::BIG_ID : conduit::Endianness::DEFAULT_ID);
        dt = b.dt;
        unsigned char *r = b.p.get();
        blocks.push_back(std::move(b));
        return r;
    }
    void check_gaps(const char *what)
    {
        for(auto &b : blocks)
        {
            std::vector<char> used(b.n, 0);
            for(index_t i = 0; i < b.dt.number_of_elements(); i++)
                for(index_t k = 0; k < b.dt.element_bytes(); k++) used[b.dt.offset() + i * b.dt.stride() + k] = 1;
            for(size_t i = 0; i < b.n; i++)
                if(!used[i] && b.p[i] != pat(i)) throw Fail(std::string(what) + ": wrote into the gap bytes of a strided external array");
        }
    }
};

template<class T> std::vector<T> as_vec(const M &m)
{ std::vector<T> r(m.v.size()); for(size_t i = 0; i < r.size(); i++) { uint64_t x = m.v[i]; memcpy(&r[i], &x, sizeof(T)); } return r; }

// dispatch on a numeric type id
template<class F> void by_type(int id, F &&f)
{
    using namespace conduit;
    switch(id)
    {
        case DataType::INT8_ID: f((int8)0); break; case DataType::INT16_ID: f((int16)0); break;
        case DataType::INT32_ID: f((int32)0); break; case DataType::INT64_ID: f((int64)0); break;
        case DataType::UINT8_ID: f((uint8)0); break; case DataType::UINT16_ID: f((uint16)0); break;
        case DataType::UINT32_ID: f((uint32)0); break; case DataType::UINT64_ID: f((uint64)0); break;
        case DataType::FLOAT32_ID: f((float32)0); break; case DataType::FLOAT64_ID: f((float64)0); break;
    }
}
struct SetPtr { Node &n; const M &m; SetPtr(Node &n_, const M &m_) : n(n_), m(m_) {}
    template<class T> void operator()(T) const { std::vector<T> v = as_vec<T>(m); T dummy = 0; n.set(v.empty() ? &dummy : v.data(), (index_t)v.size()); } };
struct SetVec { Node &n; const M &m; SetVec(Node &n_, const M &m_) : n(n_), m(m_) {}
    template<class T> void operator()(T) const { n.set(as_vec<T>(m)); } };
struct SetScalar { Node &n; const M &m; SetScalar(Node &n_, const M &m_) : n(n_), m(m_) {}
    template<class T> void operator()(T) const { n.set(as_vec<T>(m)[0]); } };

// put a leaf into a node with an owning set() of some flavour
inline void set_leaf(Source &s, Node &n, const M &m)
{
    if(m.str()) { if(s.coin()) n.set(m.s()); else n.set_char8_str(m.s().c_str()); return; }
    if(m.v.size() == 1 && s.coin()) { by_type(m.id, SetScalar(n, m)); return; }
    if(s.coin()) by_type(m.id, SetPtr(n, m)); else by_type(m.id, SetVec(n, m));
}
// build n (assumed empty) to hold m. If arena: leaves may be external with generated layouts.
inline void build(Source &s, Node &n, const M &m, Arena *arena = NULL, bool allow_big = false, bool layouts = true)
{
    if(m.obj())
    {
        n.set(DataType::object());
        for(auto &k : m.kids) build(s, n.add_child(k.first), k.second, arena, allow_big, layouts);
    }
    else if(m.list())
    {
        n.set(DataType::list());
        for(auto &k : m.kids) build(s, n.append(), k.second, arena, allow_big, layouts);
    }
    else if(m.leaf())
    {
        if(arena && s.chance(2, 3)) { DataType dt; unsigned char *p = arena->leaf(s, m, dt, allow_big, layouts); n.set_external(dt, p); }
        else set_leaf(s, n, m);
    }
}
// build without consuming choices
inline void build_plain(Node &n, const M &m)
{
    if(m.obj()) { n.set(DataType::object()); for(auto &k : m.kids) build_plain(n.add_child(k.first), k.second); }
    else if(m.list()) { n.set(DataType::list()); for(auto &k : m.kids) build_plain(n.append(), k.second); }
    else if(m.str()) n.set(m.s());
    else if(m.leaf()) by_type(m.id, SetPtr(n, m));
}

inline void quiet_info(const std::string &, const std::string &, int) {}
inline void quiet() { conduit::utils::set_info_handler(quiet_info); }

// every structural view of a tree agrees with every other one and with the model
inline void check_views(Node &n, const M &m, const Node *parent, const std::string &path)
{
    CHECK_EQ((int)n.dtype().id(), m.id, "type at '" << path << "'");
    CHECK(n.parent() == parent, "parent() of '" << path << "'");
    CHECK(n.is_root() == (parent == NULL), "is_root() of '" << path << "'");
    CHECK_EQ(n.path(), path, "path()");
    CHECK_EQ(n.schema().path(), path, "schema path()");
    index_t nk = (index_t)m.kids.size();
    CHECK_EQ(n.number_of_children(), nk, "number_of_children at '" << path << "'");
    CHECK_EQ(n.schema().number_of_children(), nk, "schema number_of_children at '" << path << "'");
    const Node &cn = n;
    if(m.obj() || m.list())
    {
        conduit::NodeIterator it = n.children(); conduit::NodeConstIterator cit = cn.children();
        for(index_t i = 0; i < nk; i++)
        {
            const std::string &nm = m.kids[i].first;
            Node *k = n.child_ptr(i);
            CHECK(k == &n.child(i) && k == &n[i] && k == &cn.child(i), "child by index at '" << path << "'");
            CHECK(it.has_next() && cit.has_next(), "iterator ends early at '" << path << "'");
            CHECK(it.has_next() && &it.next() == k, "iterator order at '" << path << "'");
            CHECK(&cit.next() == k, "const iterator order at '" << path << "'");
            CHECK(it.index() == i && cit.index() == i, "iterator index at '" << path << "'");
            CHECK(&it.node() == k, "iterator node()");
            CHECK(&n.schema().child(i) == &k->schema(), "schema of child " << i << " at '" << path << "'");
            CHECK(k->schema().parent() == &n.schema(), "schema parent of child " << i << " at '" << path << "'");
            std::string kname = nm;
            if(m.obj())
            {
                CHECK_EQ(n.child_names()[i], nm, "child_names at '" << path << "'");
                CHECK_EQ(n.schema().child_name(i), nm, "schema child_name at '" << path << "'");
                CHECK_EQ((index_t)n.schema().child_index(nm), i, "schema child_index at '" << path << "'");
                CHECK(n.has_child(nm), "has_child at '" << path << "'");
                CHECK(&n.child(nm) == k && &cn.child(nm) == k, "child by name at '" << path << "'");
                CHECK_EQ(it.name(), nm, "iterator name"); CHECK_EQ(cit.name(), nm, "iterator name");
                if(!nm.empty() && nm.find('/') == std::string::npos)
                {
                    CHECK(n.has_path(nm), "has_path at '" << path << "'");
                    CHECK(&n.fetch_existing(nm) == k && &cn.fetch_existing(nm) == k && &n.fetch(nm) == k && &cn[nm] == k,
                          "fetch by name at '" << path << "'");
                    CHECK(n.fetch_ptr(nm) == k, "fetch_ptr");
                }
                else if(!nm.empty()) kname = "{" + nm + "}";
            }
            else { kname = "[" + std::to_string(i) + "]"; CHECK(!n.has_path(kname), "has_path on a list"); }
            CHECK_EQ(k->name(), kname, "name()");
            check_views(*k, m.kids[i].second, &n, path.empty() ? kname : path + "/" + kname);
        }
        CHECK(!it.has_next() && !cit.has_next(), "iterator too long at '" << path << "'");
        // backwards: to_back() makes the last child the current one
        it.to_back(); cit.to_back();
        for(index_t i = nk - 1; i-- > 0;)
        {
            CHECK(it.has_previous() && cit.has_previous(), "iterator has_previous at '" << path << "'");
            CHECK(&it.previous() == n.child_ptr(i) && &cit.previous() == n.child_ptr(i), "iterator previous() at '" << path << "'");
        }
        CHECK(!it.has_previous() && !cit.has_previous(), "iterator too long backwards");
        it.to_front(); CHECK(it.has_next() == (nk > 0), "to_front");
        index_t j = 0; for(Node &k : n.children()) { CHECK(&k == n.child_ptr(j), "range-for order"); j++; }
        CHECK_EQ(j, nk, "range-for count");
        if(m.obj()) CHECK_EQ((index_t)n.child_names().size(), nk, "child_names size");
        CHECK(!n.has_child("no such child") && !n.has_path("no such child/x"), "has_child of a missing name");
    }
}
} // namespace model
#endif

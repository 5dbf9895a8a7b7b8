// Tables: verify decides the protocol, and CSV files keep tables.
#include "pbt_main.hpp"
#include "domain.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_csv.hpp"
#include "conduit_blueprint_table.hpp"
#include <fstream>
#include <cmath>
using namespace vmesh; using namespace model; namespace bt = conduit::blueprint::table; namespace rio = conduit::relay::io;

static int num_type(Source &s) { return s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::INT8_ID, DataType::UINT16_ID, DataType::INT16_ID, DataType::UINT32_ID, DataType::UINT64_ID}); }
static double num_val(Source &s, int id)
{
    if(id == DataType::FLOAT64_ID || id == DataType::FLOAT32_ID)
    {
        switch(s.weighted({4, 3, 2, 1}))
        {
            case 0: return (double)s.range(-999, 999);
            case 1: return (double)s.range(-99999, 99999) / 1000.0;
            case 2: return std::ldexp((double)s.range(-1000000, 1000000), (int)s.range(-40, 40));
            default: return s.pick<double>({0.0, 1e30, -1e30, 1e-30, 123456.0, 1e15, -1e-7});
        }
    }
    bool u = id == DataType::UINT8_ID || id == DataType::UINT16_ID || id == DataType::UINT32_ID || id == DataType::UINT64_ID;
    int bits = (id == DataType::INT8_ID || id == DataType::UINT8_ID) ? 8 : (id == DataType::INT16_ID || id == DataType::UINT16_ID) ? 16 : (id == DataType::INT32_ID || id == DataType::UINT32_ID) ? 32 : 53;
    double top = std::ldexp(1.0, u ? bits : bits - 1) - 1;
    double v = s.weighted({3, 1}) == 0 ? (double)s.range(0, 100) : s.pick<double>({top, top - 1, std::floor(top / 2)});
    return u ? v : (s.coin() ? -v : v);
}
struct Col { std::string name; bool mc = false; std::vector<std::string> comp; std::vector<std::vector<double> > v; };
struct Table { bool list = false; size_t rows = 0; std::vector<Col> cols; };
static std::string cname(Source &s, std::set<std::string> &used)
{
    static const std::vector<std::string> base = {"a", "b", "x", "col", "Temp", "p q", "v_1", "m.n", "1st", "e", "values", "u-v", "[k]", "n%"};
    std::string n = s.pick(base); while(!used.insert(n).second) n += "z"; return n;
}
static Table gen_table(Source &s, Node &out, Arena *A)
{
    Table t; t.list = s.chance(1, 5); t.rows = (size_t)s.len(6); if(s.chance(1, 30)) t.rows = 300; int nc = 1 + s.len(4); std::set<std::string> used; Node &v = out["values"];
    for(int i = 0; i < nc; i++)
    {
        Col k; k.name = t.list ? "" : cname(s, used); k.mc = s.chance(2, 5); int m = k.mc ? 1 + (int)s.range(0, 2) : 1; std::set<std::string> u2; bool clist = k.mc && s.chance(1, 6);
        Node &n = t.list ? v.append() : v.add_child(k.name);
        for(int j = 0; j < m; j++)
        {
            k.comp.push_back(k.mc && !clist ? cname(s, u2) : ""); int id = num_type(s); std::vector<double> x; for(size_t r = 0; r < t.rows; r++) x.push_back(num_val(s, id));
            Node &dst = !k.mc ? n : clist ? n.append() : n.add_child(k.comp.back()); 
            M mm; mm.id = id; for(double d : x) { if(id == DataType::FLOAT64_ID) mm.v.push_back(model::f64_bits(d)); else if(id == DataType::FLOAT32_ID) mm.v.push_back(model::f32_bits((float)d)); else mm.v.push_back(model::mask(id, d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d)); }
            if(id == DataType::FLOAT32_ID) for(double &d : x) d = (float)d;
            if(t.rows == 0) dst.set(DataType(id, 0)); else put(s, dst, mm, A);
            k.v.push_back(x);
        }
        t.cols.push_back(k);
    }
    return t;
}
// same up to the digits the files carry and the type read
static bool close(double got, double want, bool f64) { (void)f64; if(want == got) return true; double m = std::fabs(want); if(m > 3e38 && !f64) return true; return std::fabs(got - want) <= 6e-6 * m; }
static void same_table(const Node &got, const Table &t, bool f64, const std::string &what)
{
    CHECK(got.has_child("values"), what << " has values"); CHECK_EQ(got.number_of_children(), (index_t)1, what); const Node &v = got["values"]; CHECK_EQ(v.number_of_children(), (index_t)t.cols.size(), what << ": columns");
    for(size_t i = 0; i < t.cols.size(); i++)
    {
        const Col &k = t.cols[i]; const Node &n = v.child((index_t)i); if(!t.list) CHECK_EQ(v.child_names()[i], k.name, what << ": column name"); 
        if(k.mc) { CHECK_EQ(n.number_of_children(), (index_t)k.comp.size(), what << ": components of column " << i); }
        else CHECK(n.dtype().is_number(), what << ": column " << i << " is an array");
        for(size_t j = 0; j < k.v.size(); j++)
        {
            const Node &a = k.mc ? n.child((index_t)j) : n; if(k.mc && !k.comp[j].empty()) CHECK_EQ(n.child_names()[j], k.comp[j], what << ": component name");
            CHECK_EQ((int)a.dtype().id(), (int)(f64 ? DataType::FLOAT64_ID : DataType::FLOAT32_ID), what << ": type"); CHECK_EQ((size_t)a.dtype().number_of_elements(), t.rows, what << ": rows of column " << i);
            std::vector<double> x = dvals(a); for(size_t r = 0; r < t.rows; r++) CHECK(close(x[r], k.v[j][r], f64), what << ": row " << r << " of column " << i << " component " << j << " is " << x[r] << ", was " << k.v[j][r]);
        }
    }
}
static std::string fresh(pbt::Ctx &c, const std::string &ext) { static int n = 0; return c.scratch + "/t" + std::to_string(n++ % 8) + ext; }
static void clear(const std::string &p) { if(utils::is_directory(p)) { std::vector<std::string> f; utils::list_directory_contents(p, f); for(auto &x : f) ::unlink(x.c_str()); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
static std::string dump(const Table &t) { std::ostringstream o; o << (t.list ? "list " : "object ") << t.rows << " rows:"; for(auto &k : t.cols) { o << " " << k.name << (k.mc ? "{" : ""); for(auto &x : k.comp) if(k.mc) o << x << ","; if(k.mc) o << "}"; } return o.str(); }

PBT(round_trip, 12000, 400000)
{
    Arena A; Node n; bool many = s.chance(1, 3); std::vector<Table> ts; bool list = false; std::vector<std::string> names; std::set<std::string> used;
    if(!many) ts.push_back(gen_table(s, n, &A));
    else { list = s.coin(); int k = 1 + s.len(list ? 13 : 3); for(int i = 0; i < k; i++) { std::string nm; if(!list) { nm = s.pick<std::string>({"element_data", "vertex_data", "t", "table", "x.csv", "my table_list_0", "a.b"}); while(!used.insert(nm).second) nm += "q"; } names.push_back(nm); ts.push_back(gen_table(s, list ? n.append() : n.add_child(nm), &A)); } }
    if(c.want_desc) { for(auto &t : ts) c.desc << dump(t) << "; "; c.desc << n.to_json().substr(0, 1500); }
    M before = model::read(n); bool nt = false; for(auto &t : ts) if(t.rows >= 2 && t.cols.size() >= 2) nt = true; c.nontrivial(nt); c.label(many ? (list ? "list of tables" : "named tables") : ts[0].list ? "unnamed columns" : "one table");
    Node info; CHECK(bt::verify(n, info), "the generated table verifies " << info.to_json()); if(!many) { CHECK_EQ(info["values/rows"].to_index_t(), (index_t)ts[0].rows, "rows in the report"); CHECK_EQ(info["values/columns"].to_index_t(), (index_t)ts[0].cols.size(), "columns in the report"); } else CHECK_EQ(info["tables"].to_index_t(), (index_t)ts.size(), "tables in the report");
    std::string f = fresh(c, ".csv"); clear(f); int via = (int)s.range(0, 2); bool f64 = s.coin(); Node opts; if(f64 || s.coin()) opts["use_float64"] = f64 ? s.pick<int>({1, 2, -1}) : 0; Node got; if(s.coin()) { got["old"] = 1; got["values/zzz"] = 2; }
    bool stale = !many || true;
    if(many && !got.dtype().is_empty()) got.reset();
    if(via == 0) rio::write_csv(n, f, opts); else if(via == 1) rio::save(n, f); else rio::save(n, f, "csv", opts);
    if(via == 0) rio::read_csv(f, opts, got); else if(via == 1) rio::load(f, "csv", opts, got); else rio::load(f, opts, got); (void)stale;
    CHECK(model::read(n) == before, "writing leaves the table alone");
    if(!many) same_table(got, ts[0], f64, "table");
    else
    {
        CHECK_EQ(got.number_of_children(), (index_t)ts.size(), "tables read"); CHECK_EQ(got.dtype().is_list(), list, "list of tables");
        for(size_t i = 0; i < ts.size(); i++) { if(!list) CHECK(got.has_child(names[i]), "table " << names[i] << " is read"); same_table(list ? got.child((index_t)i) : got.child(names[i]), ts[i], f64, list ? "table " + std::to_string(i) : names[i]); }
    }
    Node i2; CHECK(bt::verify(got, i2), "what is read verifies " << i2.to_json()); clear(f);
}

// text written by others: with or without a header, with blanks, ragged rows, words
PBT(text, 20000, 600000)
{
    int nc = 1 + s.len(4), nr = s.len(5); bool header = s.chance(2, 3); if(!header && nr == 0) nr = 1; std::string nl = s.chance(1, 5) ? "\r\n" : "\n"; std::vector<std::string> names; std::set<std::string> used; for(int i = 0; i < nc; i++) names.push_back(cname(s, used)); std::ostringstream o; auto pad = [&]() { return s.pick<std::string>({"", " ", "  ", "\t"}); };
    if(header) { for(int i = 0; i < nc; i++) o << (i ? "," : "") << pad() << names[i] << pad(); o << nl; }
    int bad_row = -1, kind = (int)s.weighted({5, 1, 1, 1}); if(kind && nr) bad_row = (int)s.range(0, nr - 1); if(!header && bad_row == 0) { if(nr > 1) bad_row = 1; else bad_row = -1; } if(nc == 1 && kind == 2) bad_row = -1;
    std::vector<std::vector<double> > v;
    for(int r = 0; r < nr; r++)
    {
        v.push_back({}); int k = nc; if(r == bad_row && kind == 1) k += 1 + (int)s.range(0, 1); if(r == bad_row && kind == 2) k -= 1; int w = r == bad_row && kind == 3 ? (int)s.range(0, nc - 1) : -1;
        for(int i = 0; i < k; i++) { if(i) o << ","; if(i == w) { o << pad() << s.pick<std::string>({"word", "-", "x1"}); v.back().push_back(0); continue; } double x = (double)s.range(-4000, 4000) / 8; v.back().push_back(x); std::ostringstream t; t << x; o << pad() << t.str() << pad(); }
        if(r + 1 < nr || s.chance(4, 5)) o << nl;
    }
    if(c.want_desc) c.desc << "bad row " << bad_row << " kind " << kind << " text:\n" << o.str(); c.nontrivial(nr >= 2 && nc >= 2); c.label(header ? "header" : "no header"); if(bad_row >= 0) c.label(kind == 1 ? "extra column" : kind == 2 ? "missing column" : "not a number");
    std::string f = fresh(c, ".csv"); clear(f); { std::ofstream out(f, std::ios::binary); out << o.str(); }
    Node got, opts; bool f64 = s.coin(); if(f64) opts["use_float64"] = 1; bool threw = false; try { rio::read_csv(f, opts, got); } catch(const conduit::Error &) { threw = true; }
    clear(f);
    if(bad_row >= 0) { CHECK(threw, "a row with " << (kind == 1 ? "too many entries" : kind == 2 ? "too few entries" : "a word") << " is reported"); return; }
    CHECK(!threw, "a regular file is read"); CHECK(got.has_child("values"), "values"); const Node &vals = got["values"]; CHECK_EQ(vals.number_of_children(), (index_t)nc, "columns"); 
    for(int i = 0; i < nc; i++)
    {
        if(header) CHECK_EQ(vals.child_names()[i], names[i], "column name"); const Node &a = vals.child(i); CHECK_EQ(a.dtype().number_of_elements(), (index_t)nr, "rows of column " << i);
        CHECK_EQ((int)a.dtype().id(), (int)(f64 ? DataType::FLOAT64_ID : DataType::FLOAT32_ID), "type"); std::vector<double> x = dvals(a); for(int r = 0; r < nr; r++) CHECK_EQ(x[r], v[r][i], "row " << r << " column " << i);
    }
}

// verify against the protocol
static bool ok_mc(const Node &n) { index_t e = -1; for(index_t i = 0; i < n.number_of_children(); i++) { const Node &k = n.child(i); if(!k.dtype().is_number()) return false; if(e < 0) e = k.dtype().number_of_elements(); if(e != k.dtype().number_of_elements()) return false; } return true; }
static bool ok_single(const Node &n)
{
    if(!n.has_child("values")) return false; const Node &v = n["values"]; if(!v.dtype().is_object() && !v.dtype().is_list()) return false; index_t rows = -1;
    for(index_t i = 0; i < v.number_of_children(); i++) { const Node &k = v.child(i); index_t e; if(k.dtype().is_empty()) return false; if(k.dtype().is_object() || k.dtype().is_list()) { if(!ok_mc(k)) return false; e = k.number_of_children() ? k.child(0).dtype().number_of_elements() : 0; } else e = k.dtype().number_of_elements(); if(rows < 0) rows = e; if(rows != e) return false; }
    return true;
}
static void mutate(Source &s, Node &t)
{
    if(!t.has_child("values")) return; Node &v = t["values"];
    switch(s.weighted({3, 2, 2, 2, 1, 1, 2, 2}))
    {
        case 0: { Node &k = v.child((index_t)s.range(0, (int)v.number_of_children() - 1)); int nn = s.len(6); if(k.number_of_children() && s.coin()) { Node &q = k.child((index_t)s.range(0, (int)k.number_of_children() - 1)); q.reset(); q.set(DataType::int32(nn)); } else { k.reset(); k.set(DataType::float64(nn)); } break; }
        case 1: { Node &k = v.child((index_t)s.range(0, (int)v.number_of_children() - 1)); k.reset(); if(s.coin()) k.set(DataType::object()); else if(s.coin()) k.set(DataType::list()); break; }
        case 2: { Node &k = v.child((index_t)s.range(0, (int)v.number_of_children() - 1)); if(k.number_of_children()) { Node &q = k.child(0); q.reset(); if(s.coin()) q.set("word"); else if(s.coin()) q["deep"] = 1; } break; }
        case 3: { Node &k = v.child((index_t)s.range(0, (int)v.number_of_children() - 1)); index_t e = k.number_of_children() ? k.child(0).dtype().number_of_elements() : k.dtype().number_of_elements(); k.reset(); k["only/deep"].set(DataType::int32(e)); break; }
        case 4: v.reset(); if(s.coin()) v.set(5); break;
        case 5: t.remove("values"); if(s.coin()) t["value"] = 1; break;
        case 6: { if(v.dtype().is_object()) { Node &k = v["extra"]; k.reset(); if(s.coin()) { k["p"].set(DataType::int32(s.len(6))); k["q"].set(DataType::int32(s.len(6))); } } break; }
        default: break;
    }
}
PBT(verify, 60000, 2000000)
{
    Arena A; Node n; bool many = s.chance(1, 3); int k = many ? s.len(3) : 1; bool list = s.coin();
    if(!many) { gen_table(s, n, &A); int m = (int)s.range(0, 2); for(int i = 0; i < m; i++) { if(n.has_child("values") && n["values"].number_of_children() == 0) break; mutate(s, n); } }
    else { if(k == 0) n.set(list ? DataType::list() : s.coin() ? DataType::object() : DataType::empty()); for(int i = 0; i < k; i++) { Node &t = list ? n.append() : n["t" + std::to_string(i)]; if(s.chance(1, 10)) { if(s.coin()) t.set(3); continue; } gen_table(s, t, &A); if(s.chance(1, 3)) mutate(s, t); } }
    bool want; if(n.has_child("values")) want = ok_single(n); else { want = n.number_of_children() > 0; for(index_t i = 0; i < n.number_of_children(); i++) if(!ok_single(n.child(i))) want = false; }
    if(c.want_desc) c.desc << "want " << want << " " << n.to_json().substr(0, 1500); c.nontrivial(n.number_of_children() > 0); c.label(want ? "valid" : "invalid");
    Node info; if(s.coin()) info["old"] = 3; bool got; M before = model::read(n);
    int via = (int)s.range(0, 1); got = via ? bt::verify(n, info) : conduit::blueprint::verify("table", n, info);
    CHECK_EQ(got, want, "verify of the table protocol: " << info.to_json().substr(0, 600)); CHECK_EQ(info["valid"].as_string(), std::string(want ? "true" : "false"), "valid in the report"); CHECK(!info.has_child("old"), "report starts afresh"); CHECK(model::read(n) == before, "verify leaves its input alone");
    if(!want) { std::string f = fresh(c, ".csv"); clear(f); bool threw = false; try { rio::write_csv(n, f, Node()); } catch(const conduit::Error &) { threw = true; } CHECK(threw, "what is not a table is not written"); CHECK(!utils::is_file(f) && !utils::is_directory(f), "and leaves no file"); clear(f); }
}
PBT_MAIN()

// C21: flatten lists every vertex and element of a mesh once, with its position, ids and field values.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include <mpi.h>
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
using namespace model; using namespace conduit; using namespace vmesh; namespace bm = conduit::blueprint::mesh; namespace pm = conduit::blueprint::mpi::mesh;

struct Spec { std::string name; bool vertex; std::vector<std::string> comps; int type; int other; /* 0: usual, 1: on the second topology, 2: material only, 3: no association */ };
struct DomM { Mesh m; Node n; int64_t id; std::map<std::string, std::vector<std::vector<double> > > f; };
struct SetM { std::list<DomM> d; std::vector<Spec> specs; std::vector<std::string> axes; std::string cs, topo; bool ids; Arena A; };

static void gen_set(Source &s, SetM &S, int n, bool ids, bool mixed_types)
{
    GenMesh g; g.min_dim = g.max_dim = 1 + (int)s.range(0, 2); static const std::vector<std::string> SH[3] = {{"line"}, {"line", "tri", "quad", "polygonal"}, {"line", "tri", "quad", "polygonal", "tet", "hex", "wedge", "pyramid", "polyhedral"}}; g.shapes = SH[g.max_dim - 1]; g.cyl = false;
    S.cs = s.pick<std::string>({"coords", "cs"}); S.topo = s.pick<std::string>({"topo", "mesh"}); S.ids = ids; int nf = s.len(4); static const std::vector<int> FT = {DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::INT16_ID, DataType::UINT32_ID};
    for(int i = 0; i < nf; i++) { Spec p; p.name = "f" + std::to_string(i * 5 % 7); p.vertex = s.coin(); int nc = s.chance(1, 3) ? 1 + (int)s.range(0, 2) : 0; static const char *C[3] = {"v", "u", "w"}; for(int q = 0; q < nc; q++) p.comps.push_back(C[q]); p.type = s.pick(FT); p.other = s.chance(1, 5) ? 1 + (int)s.range(0, 2) : 0; S.specs.push_back(p); }
    int ct = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID}); bool oneid = true; std::set<int64_t> used;
    for(int i = 0; i < n; i++)
    {
        S.d.emplace_back(); DomM &D = S.d.back(); D.m = gen_mesh(s, g); NodeOpts o; o.csname = S.cs; o.toponame = S.topo; put_coordset(s, D.n["coordsets"][S.cs], D.m, o, &S.A, ct); put_topo(s, D.n["topologies"][S.topo], D.m, o, &S.A, gen_itype(s, true)); D.n["topologies"][S.topo]["coordset"] = S.cs;
        { Node &u = D.n["coordsets"][S.cs]; if(n > 1 && u["type"].as_string() == "uniform" && !u.has_child("origin") && !u.has_child("spacing")) { static const char *X[3] = {"x", "y", "z"}; for(int a = 0; a < D.m.dim; a++) u["origin"][X[a]] = 0.0; } }   // axes named alike in all domains
        if(mixed_types && s.chance(1, 4)) { Node &v = D.n["coordsets"][S.cs]; if(v.has_child("values") && v["values"].number_of_children() > 1 && v["type"].as_string() == "explicit") { Node t; v["values"].child(0).to_data_type(ct == DataType::FLOAT64_ID ? DataType::FLOAT32_ID : DataType::FLOAT64_ID, t); v["values"].child(0).reset(); v["values"].child(0).set(t); } }
        bool two = s.chance(1, 3); Mesh m2; if(two) { m2 = gen_mesh(s, g); NodeOpts o2; o2.csname = "cs2"; o2.toponame = "other"; put_mesh(s, D.n, m2, o2, &S.A); }
        D.id = i; if(ids) { do D.id = s.range(0, 40); while(!used.insert(D.id).second); if(s.coin()) D.n["state/domain_id"] = (int32)D.id; else D.n["state/domain_id"] = (int64)D.id; } (void)oneid;
        for(auto p : S.specs)
        {
            if(s.chance(1, 4)) continue; if(!p.other && two && s.chance(1, 6)) p.other = 1; /* a field of that name on another topology here */ Node &f = D.n["fields"][p.name]; const Mesh &m = p.other == 1 && two ? m2 : D.m; int len = p.vertex ? m.npts() : m.nel(); if(p.other == 1 && !two) { D.n["fields"].remove(p.name); continue; }
            if(p.other == 2) { f["matset"] = "mats"; f["association"] = "element"; f["matset_values/a"].set(std::vector<double>(D.m.nel(), 1.0)); D.n["matsets/mats/topology"] = S.topo; D.n["matsets/mats/volume_fractions/a"].set(std::vector<double>(D.m.nel(), 1.0)); continue; }
            if(p.other == 3) f["basis"] = "L2"; else f["association"] = p.vertex ? "vertex" : "element"; f["topology"] = p.other == 1 ? std::string("other") : S.topo;
            std::vector<std::vector<double> > v(std::max((size_t)1, p.comps.size())); for(auto &x : v) for(int q = 0; q < len; q++) x.push_back((double)s.range(0, 99));
            if(p.comps.empty()) put(s, f["values"], num(p.type, v[0]), &S.A); else for(size_t q = 0; q < p.comps.size(); q++) put(s, f["values"][p.comps[q]], num(p.type, v[q]), &S.A);
            if(!p.other) D.f[p.name] = v;
        }
        if(D.n.has_child("fields") && D.n["fields"].number_of_children() == 0) D.n.remove("fields");
    }
    if(n) S.axes = bm::utils::coordset::axes(S.d.front().n["coordsets"][S.cs]);
}
struct FOpt { Node n; bool centers = true, info = true, verts = true, rank = false; double ffill = 0; int64_t ifill = 0; bool some = false; std::vector<std::string> names; int root = 0; };
static void gen_fopt(Source &s, FOpt &o, const SetM &S, int nranks)
{
    auto flag = [&](const char *nm, bool &b) { if(s.chance(1, 3)) { b = s.coin(); o.n[nm] = b ? 1 : 0; } }; flag("add_element_centers", o.centers); flag("add_domain_info", o.info); flag("add_vertex_locations", o.verts);
    if(s.coin()) o.n["topology"] = S.topo; int k = (int)s.range(0, 4); if(k == 1) { o.n["fill_value"] = 7; o.ffill = 7; o.ifill = 7; } if(k == 2) { o.n["fill_value/int"] = -3; o.ifill = -3; } if(k == 3) { o.n["fill_value/float"] = 2.5; o.ffill = 2.5; if(s.coin()) { o.n["fill_value/int"] = (int64)5; o.ifill = 5; } }
    if(s.chance(1, 3)) { o.some = true; std::vector<std::string> a; for(auto &p : S.specs) a.push_back(p.name); a.push_back("nope"); for(size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[s.range(0, i - 1)]); o.n["field_names"].set(DataType::list()); for(auto &x : a) if(s.coin()) { o.names.push_back(x); o.n["field_names"].append().set(x); } if(o.names.empty()) o.some = false; }
    if(nranks > 0) { flag("add_rank", o.rank); if(s.coin()) { o.root = (int)s.range(0, nranks - 1); o.n["root"] = o.root; } }
}
typedef std::vector<double> Col;
static void check_col(const Node &n, const Col &want, double tol, const std::string &what) { CHECK(n.dtype().is_number(), what << ": no column of numbers"); float64_accessor a = n.as_float64_accessor(); CHECK_EQ(a.number_of_elements(), (index_t)want.size(), what << ": number of rows"); for(size_t i = 0; i < want.size(); i++) CHECK(std::fabs(a[i] - want[i]) <= tol, what << ": row " << i << " is " << a[i] << ", expected " << want[i]); }
static double as(int type, double x) { switch(type) { case DataType::FLOAT64_ID: case DataType::FLOAT32_ID: return x; case DataType::UINT8_ID: case DataType::UINT32_ID: return x < 0 ? (double)(uint32)(int64)x : x; default: return (double)(int64)x; } }
// order: the domains in row order with their rank
static void check_table(const Node &out, const SetM &S, const FOpt &o, const std::vector<std::pair<const DomM *, int> > &order, bool ordered)
{
    // the columns: fields in order of first appearance, or as asked for
    std::vector<std::string> fields; auto spec = [&](const std::string &n) -> const Spec & { for(auto &p : S.specs) if(p.name == n) return p; throw pbt::Fail("spec"); }; std::set<std::string> any; for(auto &d : order) for(auto &f : d.first->f) any.insert(f.first);
    if(o.some) { for(auto &x : o.names) if(any.count(x)) fields.push_back(x); } else for(auto &x : any) fields.push_back(x);
    for(int vt = 1; vt >= 0; vt--)
    {
        const char *tn = vt ? "vertex_data" : "element_data"; bool lead = vt ? o.verts : o.centers; std::vector<std::string> cols; for(auto &f : fields) if(spec(f).vertex == (vt == 1)) cols.push_back(f); std::set<std::string> names(cols.begin(), cols.end());
        if(!lead && cols.empty()) { CHECK(!out.has_child(tn), "a table " << tn << " without columns"); continue; }
        CHECK(out.has_child(tn), "no " << tn); Node info; CHECK(blueprint::table::verify(out[tn], info), tn << " is no table: " << info.to_yaml()); const Node &v = out[tn]["values"]; auto rows = [&](const DomM *d) { return vt ? d->m.npts() : d->m.nel(); };
        if(lead)
        {
            std::string nm = vt ? S.cs : "element_centers"; names.insert(nm); CHECK(v.has_child(nm), tn << ": no column " << nm << ": " << out[tn].schema().to_json()); CHECK_EQ(v[nm].number_of_children(), (index_t)S.axes.size(), tn << ": components of " << nm);
            for(size_t a = 0; a < S.axes.size(); a++)
            {
                Col w; for(auto &d : order) { const Mesh &m = d.first->m; if(vt) for(auto &p : m.pts) w.push_back(p[a]); else for(auto &e : m.el) { double t = 0; int c = 0; if(e.shape == "polyhedral") { for(auto &f : e.faces) for(int x : f) { t += m.pts[x][a]; c++; } } else for(int x : e.v) { t += m.pts[x][a]; c++; } w.push_back(t / c); } }
                CHECK(v[nm].has_child(S.axes[a]), tn << "/" << nm << ": no axis " << S.axes[a] << ": " << v[nm].schema().to_json()); check_col(v[nm][S.axes[a]], w, 1e-5, std::string(tn) + "/" + nm + "/" + S.axes[a]);
            }
        }
        for(auto &f : cols)
        {
            const Spec &p = spec(f); CHECK(v.has_child(f), tn << ": no column " << f); bool fl = is_float(p.type); double fill = fl ? o.ffill : (double)o.ifill;
            for(size_t q = 0; q < std::max((size_t)1, p.comps.size()); q++)
            {
                if(!p.comps.empty()) CHECK(v[f].has_child(p.comps[q]), tn << "/" << f << ": no component " << p.comps[q]); const Node &c = p.comps.empty() ? v[f] : v[f][p.comps[q]]; CHECK_EQ(c.dtype().is_floating_point(), fl, tn << "/" << f << ": type"); Col w; double fv = fl ? fill : c.dtype().is_unsigned_integer() && fill < 0 ? -1 : fill; (void)as;
                for(auto &d : order) { auto it = d.first->f.find(f); for(int i = 0; i < rows(d.first); i++) w.push_back(it == d.first->f.end() ? fv : it->second[q][i]); } if(c.dtype().is_unsigned_integer() && o.ifill < 0) { float64_accessor a = c.as_float64_accessor(); CHECK_EQ(a.number_of_elements(), (index_t)w.size(), "rows of " << f); for(size_t i = 0; i < w.size(); i++) if(w[i] >= 0) CHECK_EQ(a[i], w[i], tn << "/" << f << " row " << i); } else check_col(c, w, 0, std::string(tn) + "/" + f);
            }
        }
        Col di, ii, ri; for(auto &d : order) for(int i = 0; i < rows(d.first); i++) { di.push_back((double)d.first->id); ii.push_back(i); ri.push_back(d.second); }
        const char *idn = vt ? "vertex_id" : "element_id"; if(o.info) { CHECK(v.has_child("domain_id") && v.has_child(idn), tn << ": no domain information"); check_col(v["domain_id"], di, 0, std::string(tn) + "/domain_id"); check_col(v[idn], ii, 0, std::string(tn) + "/" + idn); names.insert("domain_id"); names.insert(idn); }
        if(o.rank) { CHECK(v.has_child("mpi_rank"), tn << ": no mpi_rank"); check_col(v["mpi_rank"], ri, 0, std::string(tn) + "/mpi_rank"); names.insert("mpi_rank"); }
        for(auto &x : v.child_names()) CHECK(names.count(x), tn << ": unexpected column " << x);
        // columns asked for come in that order
        if(o.some && ordered) { index_t last = -1; for(auto &x : cols) { index_t i = v.schema().child_index(x); CHECK(i > last, tn << ": column " << x << " is out of order"); last = i; } }
    }
}
static void as_mesh(Source &s, SetM &S, const std::vector<DomM *> &d, Node &m) { (void)S; if(d.size() == 1 && s.coin()) { m.set_external(d[0]->n); return; } bool list = s.coin(); for(size_t i = 0; i < d.size(); i++) { if(list) m.append().set_external(d[i]->n); else m["d" + std::to_string(i)].set_external(d[i]->n); } }

PBT(serial, 6000, 400000)
{
    int n = 1 + s.len(3); SetM S; gen_set(s, S, n, n > 1 && s.coin(), true); std::vector<DomM *> d; std::vector<std::pair<const DomM *, int> > order; for(auto &x : S.d) { d.push_back(&x); order.push_back(std::make_pair(&x, 0)); } Node m; as_mesh(s, S, d, m); FOpt o; gen_fopt(s, o, S, 0); c.nontrivial(n > 1 && !S.specs.empty());
    if(c.want_desc) c.desc << o.n.to_json() << "\n" << m.to_yaml(); verify_mesh(m, "the source"); M before = read(m); Node out; if(s.coin()) out["vertex_data/values/junk"] = 1; bm::flatten(m, o.n, out); CHECK_NODE(m, before, "the mesh"); S.A.check_gaps("flatten"); check_table(out, S, o, order, true);
}
PBT(mpi, 4000, 300000)
{
    int nr = 1 + (int)s.range(0, 3), n = 1 + s.len(4); SetM S; gen_set(s, S, n, true, false); std::vector<std::vector<DomM *> > own(nr); for(auto &x : S.d) own[s.range(0, nr - 1)].push_back(&x); std::vector<std::pair<const DomM *, int> > order; std::vector<Node> m(nr), out(nr); FOpt o; gen_fopt(s, o, S, nr);
    for(int r = 0; r < nr; r++) { for(auto *x : own[r]) order.push_back(std::make_pair(x, r)); as_mesh(s, S, own[r], m[r]); if(own[r].empty() && s.coin()) m[r].set(DataType::object()); if(s.coin()) out[r]["junk"] = 1; } c.nontrivial(nr > 1 && n > 1);
    if(c.want_desc) { c.desc << nr << " ranks " << o.n.to_json(); for(int r = 0; r < nr; r++) c.desc << "\nrank " << r << ":\n" << m[r].to_yaml(); }
    try { fm::run(nr, [&s](uint64_t x) { return s.draw(x); }, [&](int r) { pm::flatten(m[r], o.n, out[r], MPI_COMM_WORLD); }); } catch(fm::Failure &e) { throw pbt::Fail(e.what()); }
    S.A.check_gaps("flatten"); for(int r = 0; r < nr; r++) if(r != o.root) CHECK(out[r].number_of_children() == 0, "rank " << r << " has an output"); SetM *P = &S; std::string cs = S.cs; if(own[o.root].empty()) P->cs = "coords"; check_table(out[o.root], *P, o, order, false);
}
PBT_MAIN()

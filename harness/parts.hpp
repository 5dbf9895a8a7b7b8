// Multi-domain meshes of one family, for partitioning and combining.
#ifndef VPARTS_HPP
#define VPARTS_HPP
#include "mesh.hpp"
namespace vparts {
using namespace vmesh;
struct Fld { std::string name; bool vertex; std::vector<std::string> comps; int id; std::vector<std::vector<double> > v; };   // v: per component, or one
struct Dom { Mesh m; int64_t id; std::vector<Fld> f; VI gv; /* global vertex ids */ };
struct Set { std::vector<Dom> d; Node n; Arena A; bool split = false; };
inline void grid_points(Mesh &m) { m.pts.clear(); for(int k = 0; k < m.np[2]; k++) for(int j = 0; j < m.np[1]; j++) for(int i = 0; i < m.np[0]; i++) { P3 p = {0, 0, 0}; int ix[3] = {i, j, k}; for(int a = 0; a < m.dim; a++) p[a] = m.ax[a][ix[a]]; m.pts.push_back(p); } }
// logical sub-brick [lo, hi) of elements
inline Mesh sub_brick(const Mesh &m, const int *lo, const int *hi)
{
    Mesh r = m; for(int a = 0; a < m.dim; a++) { r.ne[a] = hi[a] - lo[a]; r.np[a] = r.ne[a] + 1; if(m.cs != "explicit") { r.ax[a].assign(m.ax[a].begin() + lo[a], m.ax[a].begin() + hi[a] + 1); r.org[a] = r.ax[a][0]; } }
    if(m.cs == "uniform") r.has_org = true;
    if(m.cs != "explicit") grid_points(r);
    else { r.pts.clear(); for(int k = 0; k < r.np[2]; k++) for(int j = 0; j < r.np[1]; j++) for(int i = 0; i < r.np[0]; i++) { int l2 = m.dim > 2 ? lo[2] : 0, l1 = m.dim > 1 ? lo[1] : 0; r.pts.push_back(m.pts[grid_id(m.np, i + lo[0], j + l1, k + l2)]); } }
    grid_elems(r); return r;
}
inline Mesh sub_elems(const Mesh &m, const VI &ids)
{
    Mesh r = m; r.el.clear(); r.pts.clear(); r.polyfaces.clear(); r.pf.clear(); std::map<int, int> pm; auto P = [&](int i) { auto it = pm.find(i); if(it != pm.end()) return it->second; int k = r.npts(); pm[i] = k; r.pts.push_back(m.pts[i]); return k; };
    for(int i : ids) { Elem e = m.el[i]; for(int &v : e.v) v = P(v); for(auto &f : e.faces) for(int &v : f) v = P(v); r.el.push_back(e); }
    if(m.shape == "polyhedral") { std::map<VI, int> id; for(auto &e : r.el) { VI w; for(auto &f : e.faces) { VI k = key(f); auto it = id.find(k); if(it == id.end()) { it = id.insert(std::make_pair(k, (int)r.polyfaces.size())).first; r.polyfaces.push_back(f); } w.push_back(it->second); } r.pf.push_back(w); } }
    return r;
}
inline void shift(Mesh &m, const P3 &o) { for(auto &p : m.pts) for(int a = 0; a < m.dim; a++) p[a] += o[a]; for(int a = 0; a < m.dim; a++) { m.org[a] += o[a]; for(double &x : m.ax[a]) x += o[a]; } if(m.cs == "uniform") m.has_org = true; }
struct Opts { GenMesh g; int max_dom = 3; bool any_types = true; bool gap_ids = true; bool fields = true; bool gvids = true; bool promote = false; };
inline void gen_set(Source &s, Set &S, const Opts &o)
{
    Mesh m = gen_mesh(s, o.g); if(m.cs == "uniform") { if(!m.has_org || !m.has_sp) { static const std::vector<std::string> C = {"x", "y", "z"}; m.axes.assign(C.begin(), C.begin() + m.dim); } m.has_org = m.has_sp = true; }
    int nd = (int)s.range(1, o.max_dom); S.split = nd > 1 && m.nel() > 1 && !o.promote && s.chance(2, 3) && m.topo != "points";
    if(S.split)
    {
        std::vector<Mesh> ms;
        if(m.topo != "unstructured")
        {   // cut along axes
            std::vector<std::array<int, 6> > br; br.push_back({0, 0, 0, m.ne[0], m.dim > 1 ? m.ne[1] : 1, m.dim > 2 ? m.ne[2] : 1});
            while((int)br.size() < nd) { size_t w = s.range(0, (int64_t)br.size() - 1); std::vector<int> ax; for(int a = 0; a < m.dim; a++) if(br[w][3 + a] - br[w][a] > 1) ax.push_back(a); if(ax.empty()) break; int a = s.pick(ax); int at = br[w][a] + 1 + (int)s.range(0, br[w][3 + a] - br[w][a] - 2); auto q = br[w]; br[w][3 + a] = at; q[a] = at; br.push_back(q); }
            for(auto &b : br) ms.push_back(sub_brick(m, b.data(), b.data() + 3));
        }
        else { std::vector<VI> g(nd); for(int i = 0; i < m.nel(); i++) g[s.range(0, nd - 1)].push_back(i); for(auto &v : g) if(!v.empty()) ms.push_back(sub_elems(m, v)); }
        for(auto &x : ms) { Dom d; d.m = x; S.d.push_back(d); }
    }
    else
    {
        GenMesh g2 = o.g; g2.topos = {m.topo}; if(m.topo == "unstructured") g2.shapes = {m.shape}; g2.min_dim = g2.max_dim = m.dim; g2.cyl = false; if(o.promote) { g2.topos = o.g.topos; int td = m.tdim(); g2.shapes = td == 2 ? std::vector<std::string>{"tri", "quad", "polygonal"} : td == 3 ? std::vector<std::string>{"tet", "hex", "wedge", "pyramid", "polyhedral"} : std::vector<std::string>{"line"}; if(td < m.dim) g2.topos = {"unstructured"}; }
        for(int i = 0; i < nd; i++) { Dom d; d.m = m; if(i > 0) { if(o.promote || (s.chance(2, 3) && m.topo != "points")) { Mesh q = gen_mesh(s, g2); q.axes = m.axes; q.has_org = q.has_sp = true; if((o.promote || q.cs == m.cs) && q.dim == m.dim) d.m = q; } shift(d.m, P3{(double)(200 * i), 0, 0}); } S.d.push_back(d); }
    }
    int idmode = (int)s.range(0, o.gap_ids ? 2 : 1); int64_t next = 0;
    for(size_t i = 0; i < S.d.size(); i++) { if(idmode == 2) { next += s.range(0, 5); S.d[i].id = next++; } else S.d[i].id = (int64_t)i; }
    if(o.fields)
    {
        struct K { std::string n; bool v; int comps; int id; }; std::vector<K> ks; int nf = (int)s.range(0, 3); static const char *NM[3] = {"f", "g", "h h"};
        for(int i = 0; i < nf; i++) ks.push_back({NM[i], s.coin(), (int)s.weighted({3, 0, 1, 1}), s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT16_ID})});
        if(!o.any_types) for(auto &k : ks) k.id = DataType::FLOAT64_ID;
        for(size_t i = 0; i < S.d.size(); i++) for(size_t q = 0; q < ks.size(); q++)
        { auto &k = ks[q]; Fld f; f.name = k.n; f.vertex = k.v; f.id = k.id; static const char *CN[4] = {"u", "v", "w", "q"}; for(int c = 0; c < k.comps; c++) f.comps.push_back(CN[c]); int n = k.v ? S.d[i].m.npts() : S.d[i].m.nel(); for(int c = 0; c < std::max(1, k.comps); c++) { std::vector<double> v; for(int e = 0; e < n; e++) v.push_back(1 + e + 400.0 * c + 2000.0 * i + 7000.0 * q); f.v.push_back(v); } S.d[i].f.push_back(f); }
    }
    bool gv = o.gvids && s.coin(); std::map<P3, int> gid; if(gv) for(auto &d : S.d) for(auto &p : d.m.pts) { auto it = gid.find(p); if(it == gid.end()) it = gid.insert(std::make_pair(p, (int)gid.size())).first; d.gv.push_back(it->second); }
    NodeOpts no; no.ctypes = {s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID})}; bool root = S.d.size() == 1 && s.coin(); bool list = s.coin();
    for(size_t i = 0; i < S.d.size(); i++)
    {
        Dom &d = S.d[i]; Node &n = root ? S.n : list ? S.n.append() : S.n["domain_" + std::to_string(i)]; put_mesh(s, n, d.m, no, &S.A);
        if(idmode != 0) n["state/domain_id"] = (int64)d.id;
        for(auto &f : d.f) { Node &q = n["fields"][f.name]; q["association"] = f.vertex ? "vertex" : "element"; q["topology"] = "topo"; if(f.comps.empty()) put(s, q["values"], num(f.id, f.v[0]), &S.A); else for(size_t c = 0; c < f.comps.size(); c++) put(s, q["values"][f.comps[c]], num(f.id, f.v[c]), &S.A); }
        if(gv) { Node &q = n["fields/global_vertex_ids"]; q["association"] = "vertex"; q["topology"] = "topo"; put(s, q["values"], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}), d.gv), &S.A); }
    }
}
} // namespace vparts
#endif

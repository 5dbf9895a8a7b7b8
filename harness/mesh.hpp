// Generated meshes with a combinatorial and geometric model.
#ifndef VMESH_HPP
#define VMESH_HPP
#include "model.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include <array>
#include <algorithm>
namespace vmesh {
using namespace conduit; using pbt::Source; using model::M; using model::Arena;
typedef std::array<double, 3> P3;
typedef std::vector<int> VI;

struct Elem { std::string shape; VI v; std::vector<VI> faces; };   // faces: polyhedra only (vertex loops)

inline int shape_dim(const std::string &s) { return s == "point" ? 0 : s == "line" ? 1 : s == "tri" || s == "quad" || s == "polygonal" ? 2 : 3; }
// faces of a 3D element as vertex loops, outward for a right handed element
inline std::vector<VI> faces_of(const Elem &e)
{
    static const std::map<std::string, std::vector<VI> > F = {
        {"tet", {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}},
        {"hex", {{0, 3, 2, 1}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}}},
        {"wedge", {{0, 2, 1}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {3, 4, 5}}},
        {"pyramid", {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}}};
    if(e.shape == "polyhedral") return e.faces;
    std::vector<VI> r;
    if(shape_dim(e.shape) < 3) { r.push_back(e.v); return r; }
    for(auto &f : F.at(e.shape)) { VI g; for(int i : f) g.push_back(e.v[i]); r.push_back(g); }
    return r;
}
inline VI verts_of(const Elem &e)   // distinct, sorted
{
    std::set<int> s(e.v.begin(), e.v.end()); for(auto &f : e.faces) s.insert(f.begin(), f.end());
    return VI(s.begin(), s.end());
}
inline std::set<std::pair<int, int> > edges_of(const Elem &e)
{
    std::set<std::pair<int, int> > r; 
    if(e.shape == "line") { r.insert(std::minmax(e.v[0], e.v[1])); return r; }
    if(e.shape == "point") return r;
    for(auto &f : faces_of(e)) for(size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; r.insert(std::pair<int, int>(std::min(a, b), std::max(a, b))); }
    return r;
}
inline VI key(VI v) { std::sort(v.begin(), v.end()); return v; }

struct Mesh
{
    int dim = 1;                 // spatial dimension
    std::string cs = "explicit", topo = "unstructured", shape = "line";
    std::vector<P3> pts;
    std::vector<Elem> el;
    int np[3] = {1, 1, 1}, ne[3] = {1, 1, 1};           // points / elements per logical axis
    double org[3] = {0, 0, 0}, sp[3] = {1, 1, 1}; bool has_org = false, has_sp = false;
    std::vector<double> ax[3];
    std::vector<std::string> axes;
    std::vector<VI> polyfaces;   // polyhedral: unique faces; el[i].v unused, pf[i] face ids
    std::vector<VI> pf;
    int npts() const { return (int)pts.size(); }
    int nel() const { return (int)el.size(); }
    int tdim() const { return topo == "unstructured" ? (shape == "mixed" ? 0 : shape_dim(shape)) : topo == "points" ? 0 : dim; }
    std::string describe() const
    {
        std::ostringstream o; o << cs << "/" << topo << (topo == "unstructured" ? " " + shape : std::string()) << " " << dim << "D";
        for(auto &a : axes) o << " " << a;
        o << ", " << npts() << " points, " << nel() << " elements";
        if(topo == "unstructured") { o << ":"; int n = 0; for(auto &e : el) { if(n++ == 6) { o << " ..."; break; } o << " " << e.shape << "("; for(size_t i = 0; i < e.v.size(); i++) o << (i ? " " : "") << e.v[i]; for(auto &f : e.faces) { o << "["; for(size_t i = 0; i < f.size(); i++) o << (i ? " " : "") << f[i]; o << "]"; } o << ")"; } }
        return o.str();
    }
};

inline int grid_id(const int *np, int i, int j, int k) { return i + np[0] * (j + np[1] * k); }
// elements of the logical grid in order, as line / quad / hex
inline void grid_elems(Mesh &m)
{
    m.el.clear(); const int *p = m.np;
    for(int k = 0; k < m.ne[2]; k++) for(int j = 0; j < m.ne[1]; j++) for(int i = 0; i < m.ne[0]; i++)
    {
        Elem e;
        if(m.dim == 1) { e.shape = "line"; e.v = {i, i + 1}; }
        else if(m.dim == 2) { e.shape = "quad"; e.v = {grid_id(p, i, j, 0), grid_id(p, i + 1, j, 0), grid_id(p, i + 1, j + 1, 0), grid_id(p, i, j + 1, 0)}; }
        else { e.shape = "hex"; for(int b = 0; b < 2; b++) { e.v.push_back(grid_id(p, i, j, k + b)); e.v.push_back(grid_id(p, i + 1, j, k + b)); e.v.push_back(grid_id(p, i + 1, j + 1, k + b)); e.v.push_back(grid_id(p, i, j + 1, k + b)); } }
        m.el.push_back(e);
    }
}
struct GenMesh
{
    std::vector<std::string> topos = {"points", "uniform", "rectilinear", "structured", "unstructured"};
    std::vector<std::string> shapes = {"line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral"};
    int max_ne = 3; int min_dim = 1, max_dim = 3; bool cyl = true; bool shuffle = true; bool unused = true; bool int_coords = false;
};
// Coordinates are multiples of 1/8: exact in float32 and float64.
inline Mesh gen_mesh(Source &s, const GenMesh &g)
{
    Mesh m; m.topo = s.pick(g.topos); std::string shp; int lo = g.min_dim, hi = g.max_dim;
    if(m.topo == "unstructured") { shp = s.pick(g.shapes); m.shape = shp; int sd = shape_dim(shp); lo = std::max(lo, sd); hi = std::max(lo, sd == 3 ? 3 : g.max_dim); }
    int d = (int)s.range(lo, hi); m.dim = d; int td = shp.empty() ? d : shape_dim(shp); if(td == 0) td = d;
    // logical grid of dimension td
    Mesh grid; grid.dim = td; int mx = g.max_ne; for(int a = 0; a < td; a++) { grid.ne[a] = 1 + (int)s.range(0, mx - 1); grid.np[a] = grid.ne[a] + 1; }
    for(int a = 0; a < 3; a++) { m.ne[a] = grid.ne[a]; m.np[a] = grid.np[a]; }
    static const std::vector<std::string> CART = {"x", "y", "z"};
    m.axes.assign(CART.begin(), CART.begin() + d);
    if(g.cyl && m.topo != "points" && s.chance(1, 8)) { if(d == 2) m.axes = {"z", "r"}; else if(d == 3) m.axes = {"r", "theta", "phi"}; }
    if(m.topo == "uniform") m.cs = "uniform"; else if(m.topo == "rectilinear") m.cs = "rectilinear"; else if(m.topo == "points") m.cs = s.pick<std::string>({"explicit", "explicit", "uniform", "rectilinear"}); else m.cs = "explicit";
    if(m.cs == "uniform")
    {
        m.has_org = s.chance(2, 3); m.has_sp = s.chance(2, 3);
        for(int a = 0; a < d; a++) { if(m.has_org) m.org[a] = (double)s.range(-16, 16) / (g.int_coords ? 1 : s.pick<int>({1, 4})); if(m.has_sp) m.sp[a] = (double)(1 + s.range(0, 11)) / (g.int_coords ? 1 : s.pick<int>({1, 4})); for(int i = 0; i < m.np[a]; i++) m.ax[a].push_back(m.org[a] + i * m.sp[a]); }
        if(!m.has_org && !m.has_sp) { static const std::vector<std::string> LOG = {"i", "j", "k"}; m.axes.assign(LOG.begin(), LOG.begin() + d); }   // no axis names given: logical ones
    }
    else if(m.cs == "rectilinear")
        for(int a = 0; a < d; a++) { double x = (double)s.range(-16, 16) / (g.int_coords ? 1 : 8); for(int i = 0; i < m.np[a]; i++) { m.ax[a].push_back(x); x += (double)(1 + s.range(0, 15)) / (g.int_coords ? 1 : 8); } }
    if(m.cs != "explicit")
    {
        for(int k = 0; k < m.np[2]; k++) for(int j = 0; j < m.np[1]; j++) for(int i = 0; i < m.np[0]; i++) { P3 p = {0, 0, 0}; int ix[3] = {i, j, k}; for(int a = 0; a < d; a++) p[a] = m.ax[a][ix[a]]; m.pts.push_back(p); }
        if(m.topo == "points") { for(int i = 0; i < m.npts(); i++) { Elem e; e.shape = "point"; e.v = {i}; m.el.push_back(e); } } else grid_elems(m);
        return m;
    }
    // explicit: jittered grid points
    auto jit = [&]() { return g.int_coords ? 0.0 : (double)s.range(-7, 7) / 8.0; };
    for(int k = 0; k < m.np[2]; k++) for(int j = 0; j < m.np[1]; j++) for(int i = 0; i < m.np[0]; i++)
    { P3 p = {0, 0, 0}; int ix[3] = {i, j, k}; for(int a = 0; a < d; a++) p[a] = (a < td ? 4.0 * ix[a] : 0.0) + jit(); m.pts.push_back(p); }
    if(m.topo == "points") { m.np[0] = m.npts(); m.np[1] = m.np[2] = 1; for(int i = 0; i < m.npts(); i++) { Elem e; e.shape = "point"; e.v = {i}; m.el.push_back(e); } return m; }
    Mesh base = m; base.dim = td; grid_elems(base);
    if(m.topo == "structured") { m.el = base.el; return m; }
    auto mid = [&](const VI &v) { P3 c = {0, 0, 0}; for(int i : v) for(int a = 0; a < 3; a++) c[a] += m.pts[i][a]; for(int a = 0; a < 3; a++) c[a] = std::floor(c[a] / v.size() * 64) / 64; m.pts.push_back(c); return m.npts() - 1; };
    auto add = [&](const std::string &t, VI v) { Elem e; e.shape = t; e.v = v; m.el.push_back(e); };
    std::map<std::pair<int, int>, VI> extra;   // extra points along an edge from the lower to the higher id
    auto edge_pts = [&](int a, int b) -> VI {
        std::pair<int, int> k(std::min(a, b), std::max(a, b)); auto it = extra.find(k);
        if(it == extra.end()) { VI v; int n = (int)s.weighted({4, 2, 1, 1}); for(int i = 1; i <= n; i++) { P3 c; for(int x = 0; x < 3; x++) c[x] = std::floor((m.pts[k.first][x] + (m.pts[k.second][x] - m.pts[k.first][x]) * i / (n + 1)) * 64) / 64; m.pts.push_back(c); v.push_back(m.npts() - 1); } it = extra.insert(std::make_pair(k, v)).first; }
        VI v = it->second; if(a > b) std::reverse(v.begin(), v.end()); return v; };
    std::map<VI, int> fid;
    for(auto &e : base.el)
    {
        const VI &v = e.v;
        if(shp == "line" || shp == "quad" || shp == "hex") add(shp, v);
        else if(shp == "tri") { if(s.coin()) { add("tri", {v[0], v[1], v[2]}); add("tri", {v[0], v[2], v[3]}); } else { add("tri", {v[0], v[1], v[3]}); add("tri", {v[1], v[2], v[3]}); } }
        else if(shp == "tet") { static const int T[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}}; for(auto &t : T) add("tet", {v[t[0]], v[t[1]], v[t[2]], v[t[3]]}); }
        else if(shp == "wedge") { add("wedge", {v[0], v[1], v[2], v[4], v[5], v[6]}); add("wedge", {v[0], v[2], v[3], v[4], v[6], v[7]}); }
        else if(shp == "pyramid") { int c = mid(v); for(auto &f : faces_of(e)) add("pyramid", {f[3], f[2], f[1], f[0], c}); }
        else if(shp == "polygonal") { VI w; for(int i = 0; i < 4; i++) { int a = v[i], b = v[(i + 1) % 4]; w.push_back(a); VI x = edge_pts(a, b); w.insert(w.end(), x.begin(), x.end()); } add("polygonal", w); }
        else
        {
            Elem p; p.shape = "polyhedral"; VI ids;
            for(auto &f : faces_of(e))
            {
                VI w; for(size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; w.push_back(a); if(s.chance(1, 3) || extra.count(std::make_pair(std::min(a, b), std::max(a, b)))) { VI x = edge_pts(a, b); w.insert(w.end(), x.begin(), x.end()); } else extra[std::make_pair(std::min(a, b), std::max(a, b))]; }
                p.faces.push_back(w);
            }
            m.el.push_back(p);
        }
    }
    if(shp == "polyhedral" && s.coin())
    {   // merge pairs of neighbours into larger cells
        std::vector<Elem> out; for(size_t i = 0; i < m.el.size(); i++)
        {
            if(i + 1 < m.el.size() && s.chance(1, 3))
            {
                Elem a = m.el[i], &b = m.el[i + 1]; bool merged = false;
                for(size_t x = 0; x < a.faces.size() && !merged; x++) for(size_t y = 0; y < b.faces.size() && !merged; y++) if(key(a.faces[x]) == key(b.faces[y]))
                { Elem c = a; c.faces.erase(c.faces.begin() + x); for(size_t z = 0; z < b.faces.size(); z++) if(z != y) c.faces.push_back(b.faces[z]); out.push_back(c); i++; merged = true; }
                if(merged) continue;
            }
            out.push_back(m.el[i]);
        }
        m.el = out;
    }
    if(g.unused && s.chance(1, 4)) { int n = 1 + s.len(2); for(int i = 0; i < n; i++) { P3 p = {0, 0, 0}; for(int a = 0; a < d; a++) p[a] = 100 + i * 3 + a; m.pts.push_back(p); } }
    if(g.shuffle && s.coin())
    {   // renumber points, reorder and rotate elements
        int n = m.npts(); VI pm(n); for(int i = 0; i < n; i++) pm[i] = i; for(int i = n - 1; i > 0; i--) std::swap(pm[i], pm[s.range(0, i)]);
        std::vector<P3> q(n); for(int i = 0; i < n; i++) q[pm[i]] = m.pts[i]; m.pts = q;
        for(auto &e : m.el) { for(int &i : e.v) i = pm[i]; for(auto &f : e.faces) for(int &i : f) i = pm[i]; }
        for(int i = m.nel() - 1; i > 0; i--) std::swap(m.el[i], m.el[s.range(0, i)]);
        for(auto &e : m.el) if(e.shape == "tri" || e.shape == "quad" || e.shape == "polygonal") std::rotate(e.v.begin(), e.v.begin() + s.range(0, (int64_t)e.v.size() - 1), e.v.end());
        else if(e.shape == "hex") { int r = (int)s.range(0, 3); std::rotate(e.v.begin(), e.v.begin() + r, e.v.begin() + 4); std::rotate(e.v.begin() + 4, e.v.begin() + 4 + r, e.v.end()); }
    }
    if(shp == "polyhedral")
    {   // unique faces, in order of first use
        std::map<VI, int> id; for(auto &e : m.el) { VI w; for(auto &f : e.faces) { VI k = key(f); auto it = id.find(k); if(it == id.end()) { it = id.insert(std::make_pair(k, (int)m.polyfaces.size())).first; m.polyfaces.push_back(f); } w.push_back(it->second); } m.pf.push_back(w); for(size_t i = 0; i < w.size(); i++) e.faces[i] = m.polyfaces[w[i]]; }
    }
    return m;
}

// ------------------------------------------------------------------ to conduit
struct Built { Node n; Arena A; int ctype = DataType::FLOAT64_ID, itype = DataType::INT32_ID; };
inline M num(int id, const std::vector<double> &v) { M m; m.id = id; for(double d : v) m.v.push_back(id == DataType::FLOAT64_ID ? model::f64_bits(d) : id == DataType::FLOAT32_ID ? model::f32_bits((float)d) : model::mask(id, (uint64_t)(int64_t)d)); return m; }
inline M num(int id, const VI &v) { M m; m.id = id; for(int d : v) m.v.push_back(id == DataType::FLOAT64_ID ? model::f64_bits(d) : id == DataType::FLOAT32_ID ? model::f32_bits((float)d) : model::mask(id, (uint64_t)(int64_t)d)); return m; }
inline void put(Source &s, Node &n, const M &m, Arena *A)
{ n.reset(); if(A && s.chance(1, 2)) { DataType dt; unsigned char *p = A->leaf(s, m, dt, false, true); n.set_external(dt, p); } else model::build_plain(n, m); }

struct NodeOpts { bool any_int = true; bool offsets = false; /* polytopal offsets may be left out: such a mesh does not verify */ bool layouts = true; std::string csname = "coords", toponame = "topo"; std::vector<int> ctypes = {DataType::FLOAT64_ID, DataType::FLOAT32_ID}; };
inline int gen_itype(Source &s, bool any)
{ return any ? s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::INT16_ID, DataType::UINT16_ID}) : s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}); }
inline VI prefix(const VI &sz) { VI o; int t = 0; for(int x : sz) { o.push_back(t); t += x; } return o; }

inline void put_coordset(Source &s, Node &c, const Mesh &m, const NodeOpts &o, Arena *A, int ct)
{
    static const char *L[3] = {"i", "j", "k"}; if(!o.layouts) A = NULL;
    c["type"] = m.cs;
    if(m.cs == "uniform") { for(int a = 0; a < m.dim; a++) put(s, c["dims"][L[a]], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}), VI(1, m.np[a])), A); if(m.has_org) for(int a = 0; a < m.dim; a++) put(s, c["origin"][m.axes[a]], num(ct, std::vector<double>(1, m.org[a])), A); if(m.has_sp) for(int a = 0; a < m.dim; a++) put(s, c["spacing"]["d" + m.axes[a]], num(ct, std::vector<double>(1, m.sp[a])), A); }
    else for(int a = 0; a < m.dim; a++) { std::vector<double> v; if(m.cs == "rectilinear") v = m.ax[a]; else for(auto &p : m.pts) v.push_back(p[a]); put(s, c["values"][m.axes[a]], num(ct, v), A); }
}
inline void put_topo(Source &s, Node &t, const Mesh &m, const NodeOpts &o, Arena *A, int it)
{
    static const char *L[3] = {"i", "j", "k"}; if(!o.layouts) A = NULL;
    t["type"] = m.topo; t["coordset"] = o.csname;
    if(m.topo == "structured") for(int a = 0; a < m.dim; a++) put(s, t["elements/dims"][L[a]], num(it, VI(1, m.ne[a])), A);
    if(m.topo != "unstructured") return;
    t["elements/shape"] = m.shape; VI conn, sz;
    if(m.shape == "polyhedral")
    {
        for(auto &f : m.pf) { conn.insert(conn.end(), f.begin(), f.end()); sz.push_back((int)f.size()); }
        VI sc, ss; for(auto &f : m.polyfaces) { sc.insert(sc.end(), f.begin(), f.end()); ss.push_back((int)f.size()); }
        put(s, t["elements/connectivity"], num(it, conn), A); put(s, t["elements/sizes"], num(it, sz), A); if(!o.offsets || s.coin()) put(s, t["elements/offsets"], num(it, prefix(sz)), A);
        t["subelements/shape"] = "polygonal"; put(s, t["subelements/connectivity"], num(it, sc), A); put(s, t["subelements/sizes"], num(it, ss), A); if(!o.offsets || s.coin()) put(s, t["subelements/offsets"], num(it, prefix(ss)), A);
        return;
    }
    for(auto &e : m.el) { conn.insert(conn.end(), e.v.begin(), e.v.end()); sz.push_back((int)e.v.size()); }
    put(s, t["elements/connectivity"], num(it, conn), A);
    if(m.shape == "polygonal") { put(s, t["elements/sizes"], num(it, sz), A); if(!o.offsets || s.coin()) put(s, t["elements/offsets"], num(it, prefix(sz)), A); }
}
inline void put_mesh(Source &s, Node &n, const Mesh &m, const NodeOpts &o, Arena *A)
{
    int ct = s.pick(o.ctypes), it = gen_itype(s, o.any_int);
    put_coordset(s, n["coordsets"][o.csname], m, o, A, ct); put_topo(s, n["topologies"][o.toponame], m, o, A, it);
}

// ------------------------------------------------------------------ from conduit
inline std::vector<double> dvals(const Node &n) { float64_accessor a = n.as_float64_accessor(); std::vector<double> r; for(index_t i = 0; i < a.number_of_elements(); i++) r.push_back(a[i]); return r; }
inline VI ivals(const Node &n) { index_t_accessor a = n.as_index_t_accessor(); VI r; for(index_t i = 0; i < a.number_of_elements(); i++) r.push_back((int)a[i]); return r; }
// points of any coordset
inline std::vector<P3> read_points(const Node &c)
{
    std::string t = c["type"].as_string(); static const char *L[3] = {"i", "j", "k"}; std::vector<P3> r;
    if(t == "explicit") { int a = 0; for(index_t ch = 0; ch < c["values"].number_of_children(); ch++, a++) { std::vector<double> v = dvals(c["values"].child(ch)); if(a == 0) r.assign(v.size(), P3{0, 0, 0}); CHECK_EQ(v.size(), r.size(), "coordinate arrays of one length"); for(size_t i = 0; i < v.size(); i++) r[i][a] = v[i]; } return r; }
    std::vector<double> ax[3]; int d = 0;
    if(t == "rectilinear") { d = (int)c["values"].number_of_children(); for(int a = 0; a < d; a++) ax[a] = dvals(c["values"].child(a)); }
    else { d = (int)c["dims"].number_of_children(); for(int a = 0; a < d; a++) { double o = c.has_child("origin") ? c["origin"].child(a).to_float64() : 0, sp = c.has_child("spacing") ? c["spacing"].child(a).to_float64() : 1; for(index_t i = 0; i < c["dims"][L[a]].to_index_t(); i++) ax[a].push_back(o + i * sp); } }
    for(int a = d; a < 3; a++) ax[a].assign(1, 0.0);
    for(double z : ax[2]) for(double y : ax[1]) for(double x : ax[0]) r.push_back(P3{x, y, z});
    return r;
}
// elements of any topology (vertex ids into its coordset)
inline std::vector<Elem> read_elems(const Node &t, const Node &c)
{
    std::string ty = t["type"].as_string(); std::vector<Elem> r; static const char *L[3] = {"i", "j", "k"};
    if(ty == "points") { size_t n = read_points(c).size(); for(size_t i = 0; i < n; i++) { Elem e; e.shape = "point"; e.v = {(int)i}; r.push_back(e); } return r; }
    if(ty != "unstructured")
    {
        Mesh m; m.dim = 0; for(int a = 0; a < 3; a++) { int ne = 0; 
            if(ty == "uniform") { if(!c["dims"].has_child(L[a])) break; ne = (int)c["dims"][L[a]].to_index_t() - 1; }
            else if(ty == "rectilinear") { if(a >= c["values"].number_of_children()) break; ne = (int)c["values"].child(a).dtype().number_of_elements() - 1; }
            else { if(!t["elements/dims"].has_child(L[a])) break; ne = (int)t["elements/dims"][L[a]].to_index_t(); }
            m.ne[a] = ne; m.np[a] = ne + 1; m.dim++; }
        grid_elems(m); return m.el;
    }
    if(t.has_path("elements/element_types"))
    {   // stream based description
        std::map<int, std::string> names; const Node &et = t["elements/element_types"]; for(index_t i = 0; i < et.number_of_children(); i++) names[et.child(i)["stream_id"].to_int()] = et.child(i)["shape"].as_string();
        static const std::map<std::string, int> N = {{"point", 1}, {"line", 2}, {"tri", 3}, {"quad", 4}, {"tet", 4}, {"hex", 8}, {"wedge", 6}, {"pyramid", 5}};
        VI ids = ivals(t["elements/element_index/stream_ids"]), cnt = ivals(t["elements/element_index/element_counts"]), st = ivals(t["elements/stream"]); CHECK_EQ(ids.size(), cnt.size(), "stream ids and element counts of one length"); size_t at = 0;
        for(size_t i = 0; i < ids.size(); i++) for(int k = 0; k < cnt[i]; k++) { Elem x; CHECK(names.count(ids[i]) && N.count(names[ids[i]]), "known stream id " << ids[i]); x.shape = names[ids[i]]; size_t n = N.at(x.shape); CHECK(at + n <= st.size(), "stream long enough"); x.v.assign(st.begin() + at, st.begin() + at + n); at += n; r.push_back(x); }
        CHECK_EQ(at, st.size(), "the whole stream is used"); return r;
    }
    if(!t["elements"].has_child("shape"))
    {   // buckets of one shape each
        const Node &e = t["elements"]; for(index_t i = 0; i < e.number_of_children(); i++) { Node q; q["type"] = "unstructured"; q["elements"].set_external(e.child(i)); std::vector<Elem> b = read_elems(q, c); r.insert(r.end(), b.begin(), b.end()); } return r;
    }
    std::string sh = t["elements/shape"].as_string(); VI conn = ivals(t["elements/connectivity"]);
    auto O2M = [](const Node &e, const VI &cn) { std::vector<VI> out; VI sz = ivals(e["sizes"]), off = e.has_child("offsets") ? ivals(e["offsets"]) : prefix(sz); CHECK_EQ(sz.size(), off.size(), "sizes and offsets of one length"); for(size_t i = 0; i < sz.size(); i++) { CHECK(off[i] >= 0 && sz[i] >= 0 && off[i] + sz[i] <= (int)cn.size(), "offset " << off[i] << " and size " << sz[i] << " lie inside a connectivity of " << cn.size()); out.push_back(VI(cn.begin() + off[i], cn.begin() + off[i] + sz[i])); } return out; };
    if(sh == "polyhedral")
    {
        std::vector<VI> F = O2M(t["subelements"], ivals(t["subelements/connectivity"])), E = O2M(t["elements"], conn);
        for(auto &e : E) { Elem x; x.shape = sh; for(int f : e) { CHECK(f >= 0 && f < (int)F.size(), "face id " << f << " is one of " << F.size()); x.faces.push_back(F[f]); } r.push_back(x); }
    }
    else if(sh == "polygonal") for(auto &e : O2M(t["elements"], conn)) { Elem x; x.shape = sh; x.v = e; r.push_back(x); }
    else if(sh == "mixed")
    {
        std::map<int, std::string> names; const Node &sm = t["elements/shape_map"]; for(index_t i = 0; i < sm.number_of_children(); i++) names[sm.child(i).to_int()] = sm.child(i).name();
        VI shp = ivals(t["elements/shapes"]); std::vector<VI> E = O2M(t["elements"], conn); CHECK_EQ(shp.size(), E.size(), "shapes of one length"); std::vector<VI> F;
        if(t.has_child("subelements")) F = O2M(t["subelements"], ivals(t["subelements/connectivity"]));
        for(size_t i = 0; i < E.size(); i++) { Elem x; x.shape = names[shp[i]]; if(x.shape == "polyhedral") for(int f : E[i]) x.faces.push_back(F.at(f)); else x.v = E[i]; r.push_back(x); }
    }
    else
    {
        static const std::map<std::string, int> N = {{"point", 1}, {"line", 2}, {"tri", 3}, {"quad", 4}, {"tet", 4}, {"hex", 8}, {"wedge", 6}, {"pyramid", 5}};
        int n = N.at(sh); CHECK_EQ(conn.size() % n, (size_t)0, "connectivity of whole elements");
        for(size_t i = 0; i + n <= conn.size(); i += n) { Elem x; x.shape = sh; x.v.assign(conn.begin() + i, conn.begin() + i + n); r.push_back(x); }
    }
    return r;
}
inline void check_elems(const std::vector<Elem> &got, const std::vector<Elem> &want, const char *what)
{
    CHECK_EQ(got.size(), want.size(), what << ": number of elements");
    for(size_t i = 0; i < got.size(); i++) { CHECK_EQ(got[i].shape, want[i].shape, what << ": shape of element " << i); CHECK(got[i].v == want[i].v && got[i].faces == want[i].faces, what << ": element " << i << " differs"); }
}
inline void check_points(const std::vector<P3> &got, const std::vector<P3> &want, double tol, const char *what)
{
    CHECK_EQ(got.size(), want.size(), what << ": number of points");
    for(size_t i = 0; i < got.size(); i++) for(int a = 0; a < 3; a++) CHECK(std::fabs(got[i][a] - want[i][a]) <= tol, what << ": point " << i << " axis " << a << ": " << got[i][a] << " instead of " << want[i][a]);
}
inline void verify_mesh(const Node &n, const char *what) { Node info; CHECK(conduit::blueprint::mesh::verify(n, info), what << ": the mesh does not verify: " << info.to_json().substr(0, 1500)); }
} // namespace vmesh
#endif

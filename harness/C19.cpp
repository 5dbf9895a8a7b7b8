// Derived topologies: points, lines, faces, centroids, sides, corners, and the maps between them.
#include "pbt_main.hpp"
#include "mesh.hpp"
using namespace vmesh; using namespace model; namespace bm = conduit::blueprint::mesh; namespace bu = conduit::blueprint::mesh::utils;

static std::vector<VI> o2m(const Node &n, const char *what)
{
    std::vector<VI> r; Node info; CHECK(conduit::blueprint::o2mrelation::verify(n, info), what << ": the map is not a valid o2mrelation");
    VI v = ivals(n["values"]), sz = ivals(n["sizes"]), of = ivals(n["offsets"]); CHECK_EQ(sz.size(), of.size(), what << ": map sizes and offsets");
    for(size_t i = 0; i < sz.size(); i++) { CHECK(of[i] >= 0 && sz[i] >= 0 && of[i] + sz[i] <= (int)v.size(), what << ": map entry " << i << " lies outside the values"); r.push_back(VI(v.begin() + of[i], v.begin() + of[i] + sz[i])); }
    return r;
}
static void check_inverse(const std::vector<VI> &a, const std::vector<VI> &b, const char *what)
{
    std::set<std::pair<int, int> > x, y; for(size_t i = 0; i < a.size(); i++) for(int j : a[i]) { CHECK(j >= 0 && j < (int)b.size(), what << ": map value " << j << " out of range"); x.insert(std::make_pair((int)i, j)); }
    for(size_t j = 0; j < b.size(); j++) for(int i : b[j]) { CHECK(i >= 0 && i < (int)a.size(), what << ": map value " << i << " out of range"); y.insert(std::make_pair(i, (int)j)); }
    CHECK(x == y, what << ": the two maps are not inverse to each other");
}
static P3 mean(const Mesh &m, const VI &v) { P3 c = {0, 0, 0}; for(int i : v) for(int a = 0; a < 3; a++) c[a] += m.pts[i][a] / v.size(); return c; }
static bool near(const P3 &a, const P3 &b) { for(int i = 0; i < 3; i++) if(!(std::fabs(a[i] - b[i]) <= 1e-4)) return false; return true; }
static std::string str(const P3 &p) { std::ostringstream o; o << "(" << p[0] << "," << p[1] << "," << p[2] << ")"; return o.str(); }
static bool triangulated(const Mesh &m) { return m.shape == "wedge" || m.shape == "pyramid"; }   // by design their sides are split into triangles

struct Setup { Mesh m; Node n; Arena A; M before; };
static void setup(Source &s, Setup &x, const std::vector<std::string> &shapes, int max_ne, bool cyl)
{
    GenMesh g; g.topos = {"unstructured"}; g.shapes = shapes; g.max_ne = max_ne; g.cyl = cyl; x.m = gen_mesh(s, g); NodeOpts o; put_mesh(s, x.n, x.m, o, &x.A); x.before = model::read(x.n);
}
static void finish(Setup &x, std::initializer_list<const char *> topos, std::initializer_list<const char *> csets)
{
    for(auto t : topos) x.n["topologies"].remove_child(t);
    for(auto t : csets) x.n["coordsets"].remove_child(t);
    x.A.check_gaps("generation"); CHECK_NODE(x.n, x.before, "the source mesh");
}
static const std::vector<std::string> ALL = {"line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral"}, SURF = {"tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral"};

PBT(entities, 24000, 1500000)
{
    Setup x; setup(s, x, ALL, 3, true); Mesh &m = x.m; if(c.want_desc) c.desc << m.describe(); c.nontrivial(m.nel() >= 2);
    int d = (int)s.range(0, m.tdim()); Node &dst = x.n["topologies/derived"]; if(s.coin()) dst["junk/x"] = 1; Node s2d, d2s; if(s.coin()) { s2d["junk"] = 1; d2s["junk"] = 2; }
    if(c.want_desc) c.desc << " -> dimension " << d;
    const Node &t = x.n["topologies/topo"];
    if(d == 0) bm::topology::unstructured::generate_points(t, dst, s2d, d2s); else if(d == 1) bm::topology::unstructured::generate_lines(t, dst, s2d, d2s); else if(d == 2) bm::topology::unstructured::generate_faces(t, dst, s2d, d2s);
    else { dst.reset(); dst["type"] = "unstructured"; x.n["topologies"].remove_child("derived"); finish(x, {}, {}); return; }
    verify_mesh(x.n, "derived"); CHECK_EQ(dst["coordset"].as_string(), std::string("coords"), "coordset of the derived topology"); CHECK_EQ(bm::topology::dims(dst), (index_t)d, "dims of the derived topology");
    std::vector<Elem> E = read_elems(dst, x.n["coordsets/coords"]); std::vector<VI> a = o2m(s2d, "s2d"), b = o2m(d2s, "d2s");
    CHECK_EQ(a.size(), (size_t)m.nel(), "s2d entries"); CHECK_EQ(b.size(), E.size(), "d2s entries"); CHECK_EQ(bm::topology::length(dst), (index_t)E.size(), "length of the derived topology");
    check_inverse(a, b, "entities");
    std::map<VI, int> id; for(size_t i = 0; i < E.size(); i++) { VI k = key(verts_of(E[i])); CHECK(!id.count(k), "entity " << i << " repeats entity " << id[k]); id[k] = (int)i; }
    std::set<VI> used;
    for(int e = 0; e < m.nel(); e++)
    {
        std::set<VI> want, got; for(int j : a[e]) { VI k = key(verts_of(E[j])); CHECK(got.insert(k).second, "element " << e << " lists an entity twice"); }
        if(d == m.tdim()) want.insert(verts_of(m.el[e])); else if(d == 0) for(int v : verts_of(m.el[e])) want.insert(VI(1, v)); else if(d == 1 && !triangulated(m)) for(auto &p : edges_of(m.el[e])) want.insert(VI{p.first, p.second}); else if(d == 2 && !triangulated(m)) for(auto &f : faces_of(m.el[e])) want.insert(key(f));
        else
        {   // triangulated: the element's edges are there, and the faces close the element
            if(d == 1) { for(auto &p : edges_of(m.el[e])) CHECK(got.count(VI{p.first, p.second}), "element " << e << " lacks an edge"); VI vs = verts_of(m.el[e]); for(auto &k : got) for(int v : k) CHECK(std::count(vs.begin(), vs.end(), v), "element " << e << " has a foreign edge"); }
            else { std::map<std::pair<int, int>, int> cnt; for(int j : a[e]) for(auto &p : edges_of(E[j])) cnt[p]++; for(auto &q : cnt) CHECK_EQ(q.second, 2, "faces of element " << e << " at an edge"); std::set<int> vs; for(auto &k : got) vs.insert(k.begin(), k.end()); CHECK(VI(vs.begin(), vs.end()) == verts_of(m.el[e]), "vertices of the faces of element " << e); }
            want = got;
        }
        CHECK(got == want, "entities of element " << e); used.insert(got.begin(), got.end());
    }
    for(auto &k : id) if(!used.count(k.first)) CHECK(d == 0 && b[k.second].empty(), "entity " << k.second << " belongs to no element");
    // 2D entities keep a polygon's vertex loop (some rotation or reflection of it)
    if(d == 2 && !triangulated(m)) for(int e = 0; e < m.nel(); e++) for(auto &f : faces_of(m.el[e])) { auto it = id.find(key(f)); const VI &g = E[it->second].v; std::set<std::pair<int, int> > p, q; for(size_t i = 0; i < f.size(); i++) { p.insert(std::minmax({f[i], f[(i + 1) % f.size()]})); q.insert(std::minmax({g[i], g[(i + 1) % g.size()]})); } CHECK(p == q, "vertex loop of a face of element " << e); }
    finish(x, {"derived"}, {});
}

PBT(centroids, 24000, 1500000)
{
    Setup x; setup(s, x, ALL, 3, true); Mesh &m = x.m; bool degen = false;
    if(m.shape != "polyhedral" && s.chance(1, 4))
    {   // repeated vertices count once
        for(auto &e : m.el) if(s.coin()) for(int n = 1 + s.len(3); n > 0; n--) e.v[s.range(0, (int64_t)e.v.size() - 1)] = e.v[s.range(0, (int64_t)e.v.size() - 1)];
        x.n.reset(); NodeOpts o; put_mesh(s, x.n, m, o, &x.A); x.before = model::read(x.n); degen = true;
    }
    if(c.want_desc) c.desc << m.describe(); c.nontrivial(m.nel() >= 2);
    Node &dt = x.n["topologies/ct"], &dc = x.n["coordsets/cc"]; if(s.coin()) { dt["junk"] = 1; dc["junk"] = 1; } Node s2d, d2s; if(s.coin()) { s2d["j"] = 1; d2s["j"] = 1; }
    bm::topology::unstructured::generate_centroids(x.n["topologies/topo"], dt, dc, s2d, d2s); verify_mesh(x.n, "centroids");
    CHECK_EQ(dt["coordset"].as_string(), std::string("cc"), "coordset name"); CHECK_EQ(dt["elements/shape"].as_string(), std::string("point"), "shape"); CHECK(bu::coordset::axes(dc) == m.axes, "axes");
    std::vector<P3> p = read_points(dc); CHECK_EQ(p.size(), (size_t)m.nel(), "number of centroids"); VI cn = ivals(dt["elements/connectivity"]), mp; CHECK_EQ(cn.size(), (size_t)m.nel(), "connectivity");
    for(int e = 0; e < m.nel(); e++) { CHECK_EQ(cn[e], e, "connectivity of centroid " << e); P3 w = mean(m, verts_of(m.el[e])); CHECK(near(p[e], w), "centroid " << e << ": " << str(p[e]) << " instead of " << str(w)); mp.push_back(1); mp.push_back(e); }
    CHECK(ivals(s2d) == mp && ivals(d2s) == mp, "centroid maps"); (void)degen;
    finish(x, {"ct"}, {"cc"});
}

// faces of each element, from the model, or for the triangulated shapes from generate_faces
static std::vector<std::vector<VI> > elem_faces(Setup &x)
{
    std::vector<std::vector<VI> > r; if(!triangulated(x.m)) { for(auto &e : x.m.el) r.push_back(faces_of(e)); return r; }
    Node d, a, b; bm::topology::unstructured::generate_faces(x.n["topologies/topo"], d, a, b); std::vector<Elem> E = read_elems(d, x.n["coordsets/coords"]); for(auto &l : o2m(a, "faces")) { std::vector<VI> f; for(int j : l) f.push_back(E[j].v); r.push_back(f); } return r;
}

PBT(sides, 18000, 1200000)
{
    Setup x; bool flds = s.coin(); setup(s, x, SURF, 3, !flds); Mesh &m = x.m; const int D = m.tdim(), K = D + 1, ne = m.nel(), np = m.npts();
    if(c.want_desc) c.desc << m.describe() << (flds ? " with fields" : ""); c.nontrivial(ne >= 2);
    std::vector<std::vector<VI> > F = elem_faces(x); std::set<VI> uf; for(auto &f : F) for(auto &g : f) uf.insert(key(g));
    struct Fl { std::string name; bool vert, vol; int id; std::vector<double> v; }; std::vector<Fl> fl;
    if(flds)
    {
        int nf = 1 + s.len(3); for(int i = 0; i < nf; i++) { Fl f; f.name = "f" + std::to_string(i); f.vert = s.chance(1, 3); f.vol = !f.vert && m.dim == D && s.chance(1, 3); f.id = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID, DataType::UINT64_ID}); int n = f.vert ? np : ne; for(int j = 0; j < n; j++) f.v.push_back((double)s.range(0, 200)); Node &fn = x.n["fields"][f.name]; fn["topology"] = "topo"; fn["association"] = f.vert ? "vertex" : "element"; if(f.vol || s.coin()) fn["volume_dependent"] = f.vol ? "true" : "false"; if(s.coin()) fn["units"] = "cm"; put(s, fn["values"], num(f.id, f.v), &x.A); fl.push_back(f); }
        if(s.chance(1, 3)) { Node &fn = x.n["fields/zother"]; fn["topology"] = "another"; fn["association"] = "element"; fn["values"] = 3.0; }
        x.before = model::read(x.n);
    }
    Node &dt = x.n["topologies/sides"], &dc = x.n["coordsets/sc"]; if(s.coin()) { dt["junk"] = 1; dc["junk"] = 1; } Node s2d, d2s, fd, opt; std::vector<std::string> sel; std::string pre;
    if(s.coin()) { s2d["j"] = 1; d2s["j"] = 1; }
    if(flds)
    {
        if(s.coin()) { pre = s.pick<std::string>({"p_", "x", ""}); opt["field_prefix"] = pre; }
        if(s.coin()) { for(auto &f : fl) if(s.coin()) sel.push_back(f.name); if(sel.empty()) sel.push_back(fl[0].name); if(sel.size() == 1 && s.coin()) opt["field_names"] = sel[0]; else for(auto &q : sel) opt["field_names"].append() = q; }
        if(c.want_desc) c.desc << " options " << opt.to_json() << " fields " << x.n["fields"].to_json();
        if(opt.number_of_children() == 0 && s.coin()) bm::topology::unstructured::generate_sides(x.n["topologies/topo"], dt, dc, fd, s2d, d2s); else bm::topology::unstructured::generate_sides(x.n["topologies/topo"], dt, dc, fd, s2d, d2s, opt);
    }
    else bm::topology::unstructured::generate_sides(x.n["topologies/topo"], dt, dc, s2d, d2s);
    { Node mm; mm["coordsets"].set_external(x.n["coordsets"]); mm["topologies"].set_external(x.n["topologies"]); verify_mesh(mm, "sides"); }
    CHECK_EQ(dt["coordset"].as_string(), std::string("sc"), "coordset name"); CHECK_EQ(dt["elements/shape"].as_string(), std::string(D == 2 ? "tri" : "tet"), "side shape"); CHECK(bu::coordset::axes(dc) == m.axes, "axes of the sides");
    std::vector<P3> P = read_points(dc); std::vector<Elem> E = read_elems(dt, dc); std::vector<VI> a = o2m(s2d, "s2d"), b = o2m(d2s, "d2s");
    CHECK_EQ(P.size(), (size_t)np + uf.size() + (D == 3 ? (size_t)ne : 0), "number of side points"); for(int i = 0; i < np; i++) CHECK(P[i] == m.pts[i], "original point " << i);
    CHECK_EQ(a.size(), (size_t)ne, "s2d entries"); CHECK_EQ(b.size(), E.size(), "d2s entries"); check_inverse(a, b, "sides"); size_t total = 0;
    std::map<VI, int> face_id; std::map<int, int> cell_id;
    for(int e = 0; e < ne; e++)
    {
        P3 cc = mean(m, verts_of(m.el[e])); struct W { int a, b; P3 f; VI fk; bool used; }; std::vector<W> want; for(auto &f : F[e]) { std::set<int> u(f.begin(), f.end()); P3 fc = mean(m, VI(u.begin(), u.end())); for(size_t i = 0; i < f.size(); i++) want.push_back(W{f[i], f[(i + 1) % f.size()], fc, key(f), false}); }
        CHECK_EQ(a[e].size(), want.size(), "sides of element " << e); total += want.size();
        for(int j : a[e])
        {
            CHECK(b[j].size() == 1 && b[j][0] == e, "side " << j << " belongs to element " << e); const VI &v = E[j].v; for(int k : v) CHECK(k >= 0 && k < (int)P.size(), "point id of side " << j);
            bool ok = false; for(auto &w : want) if(!w.used && near(P[v[2]], w.f) && ((v[0] == w.a && v[1] == w.b) || (D == 3 && v[0] == w.b && v[1] == w.a))) { if(face_id.count(w.fk) && face_id[w.fk] != v[2]) continue; w.used = ok = true; face_id[w.fk] = v[2]; break; }
            CHECK(ok, "side " << j << " of element " << e << ": (" << v[0] << " " << v[1] << " " << str(P[v[2]]) << ") is no side of it"); CHECK(v[2] >= np, "the face centre is a new point");
            if(D == 3) { CHECK(near(P[v[3]], cc), "side " << j << ": cell centre " << str(P[v[3]]) << " instead of " << str(cc)); CHECK(!cell_id.count(e) || cell_id[e] == v[3], "one centre per cell"); cell_id[e] = v[3]; }
        }
    }
    CHECK_EQ(total, E.size(), "number of sides");
    if(flds)
    {
        CHECK(ivals(fd[pre + "original_element_ids"]["values"]) == ivals(d2s["values"]), "original_element_ids"); VI ov = ivals(fd[pre + "original_vertex_ids"]["values"]); CHECK_EQ(ov.size(), P.size(), "original_vertex_ids"); for(size_t i = 0; i < ov.size(); i++) CHECK_EQ(ov[i], i < (size_t)np ? (int)i : -1, "original_vertex_ids " << i);
        size_t expect = 2; bool anyvol = false; std::vector<double> vol(E.size()), tot(ne, 0.0); auto V = [&](int j) { const VI &v = E[j].v; if(D == 2) { const P3 &p = P[v[0]], &q = P[v[1]], &r = P[v[2]]; return 0.5 * ((q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])); } double u[3][3]; for(int i = 0; i < 3; i++) for(int k = 0; k < 3; k++) u[i][k] = P[v[i]][k] - P[v[3]][k]; return std::fabs(u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0]) + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0])) / 6.0; };
        for(size_t j = 0; j < E.size(); j++) { vol[j] = V((int)j); tot[b[j][0]] += vol[j]; }
        for(auto &f : fl)
        {
            bool in = sel.empty() || std::count(sel.begin(), sel.end(), f.name); CHECK_EQ(fd.has_child(pre + f.name), in, "field " << f.name << " mapped"); if(!in) continue; expect++;
            const Node &o = fd[pre + f.name]; std::vector<double> v = dvals(o["values"]); CHECK_EQ(o["association"].as_string(), std::string(f.vert ? "vertex" : "element"), "association"); const Node &sf = x.n["fields"][f.name]; CHECK_EQ(o.has_child("units"), sf.has_child("units"), "other entries of the field are copied");
            CHECK_EQ(v.size(), f.vert ? P.size() : E.size(), "length of field " << f.name); if(!f.vert && !f.vol) CHECK_EQ(o["values"].dtype().id(), (index_t)f.id, "type of field " << f.name);
            if(f.vert) { for(int i = 0; i < np; i++) CHECK_EQ(v[i], f.v[i], "field " << f.name << " at point " << i); auto avg = [&](const VI &k) { double t = 0; std::set<int> u(k.begin(), k.end()); for(int i : u) t += f.v[i]; return t / u.size(); }; for(auto &k : face_id) CHECK(std::fabs(v[k.second] - avg(k.first)) < 1e-6 * (1 + avg(k.first)), "field " << f.name << " at a face centre"); for(auto &k : cell_id) CHECK(std::fabs(v[k.second] - avg(verts_of(m.el[k.first]))) < 1e-6 * 300, "field " << f.name << " at a cell centre"); }
            else if(f.vol) { anyvol = true; for(size_t j = 0; j < v.size(); j++) { double t = tot[b[j][0]]; if(std::fabs(t) < 1e-3) continue; CHECK(std::fabs(v[j] - f.v[b[j][0]] * vol[j] / t) <= 1e-3 * (1 + std::fabs(f.v[b[j][0]] * vol[j] / t)), "volume dependent field " << f.name << " at side " << j << ": " << v[j] << " instead of " << f.v[b[j][0]] * vol[j] / t); } }
            else for(size_t j = 0; j < v.size(); j++) CHECK_EQ(v[j], f.v[b[j][0]], "field " << f.name << " at side " << j);
        }
        if(anyvol) { expect++; std::vector<double> v = dvals(fd[pre + "volume"]["values"]); for(size_t j = 0; j < v.size(); j++) CHECK(std::fabs(v[j] - vol[j]) <= 1e-3 * (1 + std::fabs(vol[j])), "volume of side " << j); }
        CHECK_EQ((size_t)fd.number_of_children(), expect, "number of mapped fields");
    }
    finish(x, {"sides"}, {"sc"});
}

PBT(corners, 12000, 800000)
{
    Setup x; setup(s, x, SURF, 2, true); Mesh &m = x.m; const int D = m.tdim(), ne = m.nel(), np = m.npts(); if(c.want_desc) c.desc << m.describe(); c.nontrivial(ne >= 2);
    std::vector<std::vector<VI> > F = elem_faces(x); std::set<VI> uf; std::set<std::pair<int, int> > ue; for(auto &f : F) for(auto &g : f) { uf.insert(key(g)); for(size_t i = 0; i < g.size(); i++) ue.insert(std::minmax({g[i], g[(i + 1) % g.size()]})); }
    Node &dt = x.n["topologies/co"], &dc = x.n["coordsets/cc"]; if(s.coin()) { dt["junk"] = 1; dc["junk"] = 1; } Node s2d, d2s; if(s.coin()) { s2d["j"] = 1; d2s["j"] = 1; }
    bm::topology::unstructured::generate_corners(x.n["topologies/topo"], dt, dc, s2d, d2s); verify_mesh(x.n, "corners"); CHECK_EQ(dt["coordset"].as_string(), std::string("cc"), "coordset name"); CHECK_EQ(dt["elements/shape"].as_string(), std::string(D == 2 ? "polygonal" : "polyhedral"), "corner shape"); CHECK(bu::coordset::axes(dc) == m.axes, "axes of the corners");
    std::vector<P3> P = read_points(dc); std::vector<Elem> E = read_elems(dt, dc); std::vector<VI> a = o2m(s2d, "s2d"), b = o2m(d2s, "d2s");
    CHECK_EQ(P.size(), (size_t)np + ue.size() + uf.size() + (D == 3 ? (size_t)ne : 0), "number of corner points"); for(int i = 0; i < np; i++) CHECK(P[i] == m.pts[i], "original point " << i);
    CHECK_EQ(a.size(), (size_t)ne, "s2d entries"); CHECK_EQ(b.size(), E.size(), "d2s entries"); check_inverse(a, b, "corners");
    if(D == 3) { std::set<VI> U; for(auto &e : E) for(auto &f : e.faces) U.insert(key(f)); CHECK_EQ(U.size(), ivals(dt["subelements/sizes"]).size(), "each distinct corner face is stored once"); }
    size_t total = 0; typedef std::vector<P3> Poly; auto mid = [&](int p, int q) { return mean(m, VI{p, q}); };
    auto cyc = [&](const Poly &g, const Poly &w, bool dir) { if(g.size() != w.size()) return false; size_t n = g.size(); for(int rev = 0; rev < (dir ? 1 : 2); rev++) for(size_t r = 0; r < n; r++) { bool ok = true; for(size_t i = 0; i < n && ok; i++) ok = near(g[(rev ? n - i + r : i + r) % n], w[i]); if(ok) return true; } return false; };
    for(int e = 0; e < ne; e++)
    {
        VI vs = verts_of(m.el[e]); P3 cc = mean(m, vs); CHECK_EQ(a[e].size(), vs.size(), "corners of element " << e); total += vs.size(); std::set<int> seen;
        for(int j : a[e])
        {
            CHECK(b[j].size() == 1 && b[j][0] == e, "corner " << j << " belongs to element " << e); std::set<int> orig; for(int k : verts_of(E[j])) { CHECK(k >= 0 && k < (int)P.size(), "point id of corner " << j); if(k < np) orig.insert(k); }
            CHECK_EQ(orig.size(), (size_t)1, "original vertices of corner " << j); int p = *orig.begin(); CHECK(std::count(vs.begin(), vs.end(), p) && seen.insert(p).second, "corner " << j << ": vertex " << p << " is a vertex of the element seen once");
            if(D == 2) { const VI &v = m.el[e].v; size_t n = v.size(), i = std::find(v.begin(), v.end(), p) - v.begin(); Poly w = {m.pts[p], mid(p, v[(i + 1) % n]), cc, mid(v[(i + n - 1) % n], p)}, g; for(int k : E[j].v) g.push_back(P[k]); CHECK(cyc(g, w, true), "corner " << j << " of element " << e << " at vertex " << p); continue; }
            std::vector<Poly> want; std::map<std::pair<int, int>, Poly> atedge;
            for(auto &f : F[e]) { size_t n = f.size(), i = std::find(f.begin(), f.end(), p) - f.begin(); if(i == n) continue; int nx = f[(i + 1) % n], pv = f[(i + n - 1) % n]; P3 fc = mean(m, f); want.push_back(Poly{m.pts[p], mid(p, nx), fc, mid(p, pv)}); for(int q : {nx, pv}) atedge[std::minmax({p, q})].push_back(fc); }
            for(auto &q : atedge) { CHECK_EQ(q.second.size(), (size_t)2, "model: two faces at an edge"); want.push_back(Poly{mid(q.first.first, q.first.second), q.second[0], cc, q.second[1]}); }
            CHECK_EQ(E[j].faces.size(), want.size(), "faces of corner " << j); std::vector<char> used(want.size(), 0);
            for(auto &f : E[j].faces) { Poly g; for(int k : f) g.push_back(P[k]); bool ok = false; for(size_t i = 0; i < want.size() && !ok; i++) if(!used[i] && cyc(g, want[i], false)) { used[i] = 1; ok = true; } CHECK(ok, "a face of corner " << j << " of element " << e << " at vertex " << p << " is no corner face"); }
            std::map<std::pair<int, int>, int> cnt; for(auto &f : E[j].faces) for(size_t k = 0; k < f.size(); k++) cnt[std::minmax({f[k], f[(k + 1) % f.size()]})]++; for(auto &q : cnt) CHECK_EQ(q.second, 2, "corner " << j << " is closed");
        }
    }
    CHECK_EQ(total, E.size(), "number of corners"); finish(x, {"co"}, {"cc"});
}
PBT_MAIN()

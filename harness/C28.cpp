// C28: utilities that slice, reorder, rebuild and look up mesh parts name the same elements, points and values.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include "conduit_blueprint_curves.hpp"
using namespace model; using namespace conduit; using namespace vmesh; namespace bm = conduit::blueprint::mesh; namespace bu = conduit::blueprint::mesh::utils;

static VI perm(Source &s, int n) { VI v; for(int i = 0; i < n; i++) v.push_back(i); for(int i = n - 1; i > 0; i--) std::swap(v[i], v[s.range(0, i)]); return v; }
static GenMesh unst(bool poly3 = false) { GenMesh g; g.topos = {"unstructured"}; g.cyl = false; g.shapes = {"line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal"}; if(poly3) g.shapes.push_back("polyhedral"); return g; }
static std::vector<index_t> ix(const VI &v) { return std::vector<index_t>(v.begin(), v.end()); }
static std::vector<P3> at(const std::vector<P3> &p, const VI &v) { std::vector<P3> r; for(int i : v) { CHECK(i >= 0 && i < (int)p.size(), "point id " << i << " of " << p.size()); r.push_back(p[i]); } return r; }

PBT(slices, 20000, 1000000)
{
    static const std::vector<int> T = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
    Arena A; Node n; int len = 1 + s.len(12), nc = (int)s.weighted({3, 1, 1, 1}); std::vector<std::vector<double> > v(std::max(1, nc)); std::vector<int> id; static const char *CN[] = {"u", "v w", "q"};
    for(auto &x : v) { id.push_back(s.pick(T)); for(int i = 0; i < len; i++) x.push_back((double)s.range(0, 100)); }
    for(size_t k = 0; k < v.size(); k++) put(s, nc ? n[CN[k]] : n, num(id[k], v[k]), &A);
    VI ids; int m = s.len(16); for(int i = 0; i < m; i++) ids.push_back((int)s.range(0, len - 1)); bool same = s.chance(1, 4), field = nc || s.coin(); M before = model::read(n); Node d; int pre = (int)s.range(0, 2); if(pre == 1) d.set("old"); if(pre == 2) { if(nc) d[CN[0]] = 1; else d.set(std::vector<double>(30, 1.0)); } if(nc && pre == 1) d.reset();
    Node &o = same ? n : d; if(c.want_desc) c.desc << n.to_json().substr(0, 300) << " ids " << m << (same ? " in place" : "") << (field ? " field" : " array"); c.nontrivial(m > 1);
    if(s.coin()) { if(field) bu::slice_field(n, ids, o); else bu::slice_array(n, ids, o); } else { if(field) bu::slice_field(n, ix(ids), o); else bu::slice_array(n, ix(ids), o); }
    CHECK_EQ((int)o.number_of_children(), nc, "components"); for(size_t k = 0; k < v.size(); k++) { const Node &q = nc ? o[CN[k]] : o; CHECK_EQ((int)q.dtype().id(), id[k], "type"); std::vector<double> g = dvals(q); CHECK_EQ(g.size(), ids.size(), "length"); for(size_t i = 0; i < g.size(); i++) CHECK_EQ(g[i], v[k][ids[i]], "value " << i); }
    if(!same) CHECK_NODE(n, before, "the source"); A.check_gaps("slice");
}
// reorder: elements in the given order (or a part of them), points in order of use, fields with them
PBT(reorder, 8000, 400000)
{
    GenMesh g = unst(); Mesh m = gen_mesh(s, g); Arena A; Node n; NodeOpts no; put_mesh(s, n, m, no, &A); Node &t = n["topologies/topo"];
    VI sz; for(auto &e : m.el) sz.push_back((int)e.v.size()); int it = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}); if(!t.has_path("elements/sizes")) put(s, t["elements/sizes"], num(it, sz), &A); if(!t.has_path("elements/offsets")) put(s, t["elements/offsets"], num(it, prefix(sz)), &A);
    struct F { std::string n; bool v; int id; std::vector<std::vector<double> > x; }; std::vector<F> fs; int nf = s.len(3); static const char *CN[] = {"u", "v", "w"};
    for(int i = 0; i < nf; i++) { F f; f.n = std::string("f ") + "abc"[i]; f.v = s.coin(); f.id = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::UINT8_ID}); f.x.resize(s.pick<int>({1, 1, 2, 3})); Node &q = n["fields"][f.n]; q["association"] = f.v ? "vertex" : "element"; q["topology"] = "topo"; for(size_t k = 0; k < f.x.size(); k++) { int cnt = f.v ? m.npts() : m.nel(); for(int e = 0; e < cnt; e++) f.x[k].push_back((double)s.range(0, 200)); put(s, f.x.size() == 1 ? q["values"] : q["values"][CN[k]], num(f.id, f.x[k]), &A); } fs.push_back(f); }
    if(s.chance(1, 3)) { Node &q = n["fields/other"]; q["association"] = "element"; q["topology"] = "elsewhere"; q["values"] = {1, 2, 3}; } else n["fields"];
    VI ord = perm(s, m.nel()); if(s.chance(1, 3)) ord.resize(1 + s.range(0, m.nel() - 1)); bool in = s.chance(1, 3); Node d; std::string dt = s.coin() ? "topo" : "new topo"; std::vector<index_t> o2n; if(s.coin()) o2n.assign(s.len(5), 7); if(c.want_desc) { c.desc << m.describe() << (in ? " in place" : "") << " order"; for(int i : ord) c.desc << " " << i; } c.nontrivial(ord.size() > 1); M before = model::read(n);
    if(in) { dt = "topo"; bu::topology::unstructured::reorder(t, n["coordsets/coords"], n["fields"], ix(ord), t, n["coordsets/coords"], n["fields"], o2n); } else { Node &a = d["topologies"][dt], &b = d["coordsets/cc"], &f = d["fields"]; bu::topology::unstructured::reorder(t, n["coordsets/coords"], n["fields"], ix(ord), a, b, f, o2n); }
    const Node &r = in ? n : d; VI use; std::map<int, int> nw; for(int e : ord) for(int p : m.el[e].v) if(!nw.count(p)) { int k = (int)nw.size(); nw[p] = k; use.push_back(p); } CHECK_EQ(o2n.size(), (size_t)m.npts(), "length of old2NewPoints"); for(int i = 0; i < m.npts(); i++) CHECK_EQ((int)o2n[i], nw.count(i) ? nw[i] : -1, "new id of point " << i);
    const Node &rt = r["topologies"][dt], &rc = r["coordsets"].child(0); CHECK_EQ(rt["coordset"].as_string(), r["coordsets"].child_names()[0], "coordset name"); std::vector<Elem> we; for(int e : ord) { Elem x = m.el[e]; for(int &p : x.v) p = nw[p]; we.push_back(x); } check_elems(read_elems(rt, rc), we, "reordered"); check_points(read_points(rc), at(m.pts, use), 0, "reordered");
    CHECK(ivals(rt["elements/sizes"]) == [&] { VI z; for(auto &e : we) z.push_back((int)e.v.size()); return z; }(), "sizes"); CHECK(rc["values"].child_names() == std::vector<std::string>(m.axes.begin(), m.axes.end()), "axes");
    for(auto &f : fs) { CHECK(r["fields"].has_child(f.n), "field " << f.n); const Node &q = r["fields"][f.n]; CHECK(q["association"].as_string() == (f.v ? "vertex" : "element") && q["topology"].as_string() == dt, "association of " << f.n); for(size_t k = 0; k < f.x.size(); k++) { const Node &w = f.x.size() == 1 ? q["values"] : q["values"][CN[k]]; CHECK_EQ((int)w.dtype().id(), f.id, "type of " << f.n); std::vector<double> g2 = dvals(w), want; for(int e : f.v ? use : ord) want.push_back(f.x[k][e]); CHECK(g2 == want, "values of " << f.n); } }
    CHECK_EQ(r["fields"].has_child("other"), in && Node(n)["fields"].has_child("other"), "fields of other topologies"); if(!in) { CHECK_NODE(n, before, "the source"); } else if(n["fields"].has_child("other")) CHECK(n["fields/other/values"].dtype().number_of_elements() == 3 && n["fields/other/topology"].as_string() == "elsewhere", "field of another topology"); A.check_gaps("reorder");
}
// orderings are permutations of the elements
PBT(orderings, 8000, 400000)
{
    GenMesh g = unst(true); g.min_dim = 2; Mesh m = gen_mesh(s, g); if(s.chance(1, 6)) for(auto &p : m.pts) p = P3{m.pts[0]}; Arena A; Node n; NodeOpts no; put_mesh(s, n, m, no, &A); bool h = s.coin(); if(h && s.chance(1, 4)) { GenMesh g1 = unst(); g1.min_dim = g1.max_dim = 1; g1.shapes = {"line"}; m = gen_mesh(s, g1); n.reset(); put_mesh(s, n, m, no, &A); }
    if(c.want_desc) c.desc << (h ? "hilbert " : "kdtree ") << m.describe(); c.nontrivial(m.nel() > 2); M before = model::read(n); std::vector<index_t> r = h ? bu::topology::hilbert_ordering(n["topologies/topo"]) : bu::topology::spatial_ordering(n["topologies/topo"]); CHECK_EQ((int)r.size(), m.nel(), "every element is in the order"); std::vector<index_t> q = r; std::sort(q.begin(), q.end()); for(size_t i = 0; i < q.size(); i++) CHECK_EQ((size_t)q[i], i, "every element is in the order once"); CHECK_NODE(n, before, "the mesh");
}
PBT(curves, 3000, 100000)
{
    int w = 1 + (int)s.range(0, 11), h = 1 + (int)s.range(0, 11), d = 1 + (int)s.range(0, 6); bool three = s.coin(); if(c.want_desc) c.desc << w << "x" << h << (three ? "x" + std::to_string(d) : std::string()); c.nontrivial(w > 2 && h > 2); std::vector<P3> v;
    if(three) blueprint::curves::gilbert3d<int>(w, h, d, [&](int x, int y, int z) { v.push_back(P3{(double)x, (double)y, (double)z}); }); else { d = 1; blueprint::curves::gilbert2d<int>(w, h, [&](int x, int y) { v.push_back(P3{(double)x, (double)y, 0}); }); }
    std::set<P3> u(v.begin(), v.end()); CHECK_EQ(v.size(), (size_t)(w * h * d), "cells visited"); CHECK_EQ(u.size(), v.size(), "each once"); for(auto &p : v) CHECK(p[0] >= 0 && p[0] < w && p[1] >= 0 && p[1] < h && p[2] >= 0 && p[2] < d, "inside of the box");
    for(size_t i = 1; i < v.size(); i++) for(int a = 0; a < 3; a++) CHECK(std::fabs(v[i][a] - v[i - 1][a]) <= 1, "neighbours along the curve at " << i);
}
PBT(builder, 8000, 400000)
{
    GenMesh g; g.topos = {"structured", "unstructured", "points"}; g.cyl = false; Mesh m = gen_mesh(s, g); if(m.cs != "explicit") { m.cs = "explicit"; } { static const char *X[] = {"x", "y", "z"}; m.axes.assign(X, X + m.dim); } Arena A; Node n; NodeOpts no; put_mesh(s, n, m, no, &A);
    static const std::vector<std::pair<std::string, int> > SH = {{"line", 2}, {"tri", 3}, {"quad", 4}, {"polygonal", 0}, {"tet", 4}, {"hex", 8}, {"point", 1}}; bu::topology::TopologyBuilder B(n["topologies/topo"]); int runs = 1 + (int)s.range(0, 1);
    for(int k = 0; k < runs; k++)
    {
        auto sh = s.pick(SH); std::vector<VI> want; int ne = 1 + s.len(8); for(int i = 0; i < ne; i++) { int sz = sh.second ? sh.second : 3 + (int)s.range(0, 4); VI e; for(int j = 0; j < sz; j++) e.push_back((int)s.range(0, m.npts() - 1)); size_t id; if(s.coin()) id = B.add(ix(e)); else { std::vector<index_t> q = ix(e); id = B.add(q.data(), (index_t)q.size()); } CHECK_EQ(id, (size_t)i, "index of an added entity"); want.push_back(e); }
        if(c.want_desc) c.desc << m.describe() << " " << ne << " " << sh.first << "; "; c.nontrivial(ne > 1); Node o; if(s.coin()) o["old"] = 1; B.execute(o, sh.first); CHECK(!o.has_child("old"), "a new mesh"); const Node &t = o["topologies/topo"], &cs = o["coordsets/coords"]; CHECK_EQ(t["elements/shape"].as_string(), sh.first, "shape"); auto pts = read_points(cs); auto els = read_elems(t, cs); CHECK_EQ(els.size(), want.size(), "entities"); std::set<int> used;
        for(size_t i = 0; i < want.size(); i++) { used.insert(want[i].begin(), want[i].end()); auto a = at(pts, els[i].v), b = at(m.pts, want[i]); CHECK_EQ(a.size(), b.size(), "points of entity " << i); for(size_t j = 0; j < a.size(); j++) for(int x = 0; x < 3; x++) CHECK_EQ(a[j][x], b[j][x], "point " << j << " of entity " << i); }
        CHECK_EQ(pts.size(), used.size(), "only the points in use, once"); CHECK(ivals(t["elements/sizes"]) == [&] { VI z; for(auto &e : want) z.push_back((int)e.size()); return z; }(), "sizes"); VI off = ivals(t["elements/offsets"]), z; for(auto &e : want) z.push_back((int)e.size()); CHECK(off == prefix(z), "offsets"); verify_mesh(o, "builder");
    }
    A.check_gaps("builder");
}
// a mesh with the points of another one in some order, and entities on them
static void needle(Source &s, const Mesh &m, Mesh &b, std::vector<int> &p2, bool foreign)
{
    VI pm = perm(s, m.npts()); int keep = foreign ? 1 + (int)s.range(0, m.npts() - 1) : m.npts(); b = m; b.pts.clear(); b.el.clear(); p2.clear(); for(int i = 0; i < keep; i++) { b.pts.push_back(m.pts[pm[i]]); p2.push_back(pm[i]); } if(foreign) { int k = s.len(3); for(int i = 0; i < k; i++) { P3 p = {0, 0, 0}; for(int a = 0; a < m.dim; a++) p[a] = -50 - 3 * i; b.pts.push_back(p); p2.push_back(-1); } }
    std::map<int, int> inv; for(size_t i = 0; i < p2.size(); i++) if(p2[i] >= 0) inv[p2[i]] = (int)i; int ne = 1 + s.len(8);
    for(int i = 0; i < ne; i++) { Elem e = m.el[s.range(0, m.nel() - 1)]; bool ok = true; for(int &v : e.v) if(inv.count(v)) v = inv[v]; else ok = false; if(!ok || (foreign && s.chance(1, 3))) { VI q = perm(s, (int)b.pts.size()); if(q.size() < e.v.size()) continue; e.v.assign(q.begin(), q.begin() + e.v.size()); } else if(s.coin()) { VI q = perm(s, (int)e.v.size()); VI w; for(int x : q) w.push_back(e.v[x]); e.v = w; } b.el.push_back(e); }
    if(b.el.empty()) { Elem e = m.el[0]; VI q = perm(s, (int)b.pts.size()); for(size_t j = 0; j < e.v.size(); j++) e.v[j] = q[j % q.size()]; b.el.push_back(e); }
}
PBT(lookup, 8000, 400000)
{
    GenMesh g = unst(); Mesh m = gen_mesh(s, g), b; std::vector<int> p2; needle(s, m, b, p2, true); Arena A; Node n, q; NodeOpts no; put_mesh(s, n, m, no, &A); NodeOpts n2; n2.csname = s.coin() ? "coords" : "c2"; n2.toponame = s.coin() ? "topo" : "t2"; put_mesh(s, q, b, n2, &A); if(s.coin()) n["state/domain_id"] = 0;
    std::set<VI> have; for(auto &e : m.el) have.insert(key(e.v)); std::vector<int> want; for(auto &e : b.el) { VI k; bool bad = false; for(int v : e.v) { if(p2[v] < 0) bad = true; k.push_back(p2[v]); } want.push_back(!bad && have.count(key(k)) ? 1 : 0); }
    if(c.want_desc) c.desc << m.describe() << " / " << b.describe(); int hits = 0; for(int w : want) hits += w; c.nontrivial(hits > 0 && hits < (int)want.size()); M x = model::read(n), y = model::read(q); std::vector<int> r = bu::topology::search(n["topologies/topo"], q["topologies"].child(0)); CHECK_EQ(r.size(), want.size(), "one answer per entity"); for(size_t i = 0; i < r.size(); i++) CHECK_EQ(r[i], want[i], "entity " << i); CHECK_NODE(n, x, "the first mesh"); CHECK_NODE(q, y, "the second mesh"); A.check_gaps("search");
}
PBT(rewrite, 8000, 400000)
{
    GenMesh g = unst(); Mesh m = gen_mesh(s, g), b; std::vector<int> p2; needle(s, m, b, p2, false); if(s.coin()) b = m; bool byid = s.coin(); if(byid && s.chance(1, 3)) { m = gen_mesh(s, unst(true)); b = m; } Arena A; Node n, q; NodeOpts no; no.csname = "vol"; put_mesh(s, n, m, no, &A); NodeOpts n2; n2.any_int = false; put_mesh(s, q, b, n2, &A); if(s.coin()) n["state/domain_id"] = (int)s.range(0, 9); Node &t = q["topologies/topo"]; if(c.want_desc) c.desc << (byid ? "by id " : "by place ") << m.describe() << " / " << b.describe(); c.nontrivial(b.nel() > 1);
    std::vector<P3> pts = m.pts;
    if(byid)
    {   // global ids name the points; the new coordset has the same points (and maybe more) in another order
        VI gid = perm(s, b.npts()); int ofs = (int)s.range(0, 50), st = 1 + (int)s.range(0, 3); for(int &x : gid) x = ofs + st * x; VI pm = perm(s, b.npts()); Mesh w = b; w.pts.clear(); VI ng; for(int i : pm) { w.pts.push_back(b.pts[i]); ng.push_back(gid[i]); if(s.chance(1, 6)) { w.pts.push_back(P3{0, 0, 0}); ng.push_back(100000 + i); } }
        Node cs, og, nn, o; put_coordset(s, cs["coordsets/new"], w, no, &A, DataType::FLOAT64_ID); put(s, og["values"], num(DataType::INT64_ID, gid), &A); put(s, nn["values"], num(DataType::INT32_ID, ng), &A); M before = model::read(q); bool in = s.coin(); Node &out = in ? t : o; if(!in && s.coin()) o["junk"] = 1; bu::topology::reindex_coords(t, cs["coordsets/new"], og, nn, out); CHECK(!out.has_child("junk"), "a new topology"); CHECK_EQ(out["coordset"].as_string(), std::string("new"), "coordset name");
        auto els = read_elems(out, cs["coordsets/new"]); CHECK_EQ(els.size(), b.el.size(), "elements"); std::map<int, int> place; for(size_t i = 0; i < ng.size(); i++) place[ng[i]] = (int)i; std::vector<Elem> want = b.el; for(auto &e : want) { for(int &v : e.v) v = place[gid[v]]; for(auto &f : e.faces) for(int &v : f) v = place[gid[v]]; } check_elems(els, want, "reindexed"); if(!in) CHECK_NODE(q, before, "the source");
    }
    else
    {
        bu::topology::unstructured::rewrite_connectivity(t, n["coordsets/vol"]); CHECK_EQ(t["coordset"].as_string(), std::string("vol"), "coordset name"); auto els = read_elems(t, n["coordsets/vol"]); CHECK_EQ(els.size(), b.el.size(), "elements"); for(size_t i = 0; i < els.size(); i++) { auto x = at(pts, els[i].v), y = at(b.pts, b.el[i].v); CHECK_EQ(x.size(), y.size(), "points of element " << i); for(size_t j = 0; j < x.size(); j++) CHECK(x[j] == y[j], "point " << j << " of element " << i); }
    }
    A.check_gaps("rewrite");
}
// the part of a boundary element is that of the one element behind it
PBT(boundary, 5000, 300000)
{
    GenMesh g = unst(); g.min_dim = 2; g.shapes = {"tri", "quad", "polygonal", "tet", "hex"}; /* wedges and pyramids are split into triangles by design */ Mesh m = gen_mesh(s, g); int td = shape_dim(m.shape); Arena A; Node n; NodeOpts no; put_mesh(s, n, m, no, &A);
    std::map<VI, VI> owner; std::map<VI, VI> loop; for(int e = 0; e < m.nel(); e++) { if(td == 2) { for(auto &x : edges_of(m.el[e])) { VI k = {x.first, x.second}; owner[k].push_back(e); loop[k] = k; } } else for(auto &f : faces_of(m.el[e])) { owner[key(f)].push_back(e); loop[key(f)] = f; } }
    std::vector<VI> ks; for(auto &x : owner) if(x.second.size() == 1) ks.push_back(x.first); size_t len0 = td == 2 ? 2 : m.shape == "tet" ? 3 : 4; std::vector<VI> use; for(auto &k : ks) if(k.size() == len0 && s.chance(3, 4)) use.push_back(k); if(use.empty()) return; VI pm = perm(s, (int)use.size()); VI conn, want; VI part; for(int e = 0; e < m.nel(); e++) part.push_back((int)s.range(0, 5)); for(int i : pm) { VI l = loop[use[i]]; std::rotate(l.begin(), l.begin() + s.range(0, (int64_t)l.size() - 1), l.end()); conn.insert(conn.end(), l.begin(), l.end()); want.push_back(part[owner[use[i]][0]]); }
    Node &b = n["topologies/bnd"]; b["type"] = "unstructured"; b["coordset"] = "coords"; b["elements/shape"] = len0 == 2 ? "line" : len0 == 3 ? "tri" : "quad"; put(s, b["elements/connectivity"], num(gen_itype(s, false), conn), &A); Node &f = n["fields/part"]; f["topology"] = "topo"; f["association"] = "element"; put(s, f["values"], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}), part), &A);
    if(c.want_desc) c.desc << m.describe() << " boundary of " << use.size(); c.nontrivial(use.size() > 2); M before = model::read(n); Node o; if(s.coin()) o["old"] = 1; bm::generate_boundary_partition_field(n["topologies/topo"], f, b, o); CHECK(o["association"].as_string() == "element" && o["topology"].as_string() == "bnd", "association"); VI got = ivals(o["values"]); CHECK_EQ(got.size(), want.size(), "length"); for(size_t i = 0; i < got.size(); i++) CHECK_EQ(got[i], want[i], "part of boundary element " << i); CHECK_NODE(n, before, "the mesh"); A.check_gaps("boundary");
}
// strips: one quad per line, with its values
PBT(strips, 6000, 300000)
{
    GenMesh g; g.min_dim = g.max_dim = 1; g.topos = {"uniform", "rectilinear", "structured", "unstructured"}; g.shapes = {"line"}; g.cyl = false; Mesh m = gen_mesh(s, g); if(m.cs == "uniform") { m.axes = {"x"}; } Arena A; Node n; NodeOpts no; put_mesh(s, n, m, no, &A); bool mat = s.chance(1, 3); Mats mats; if(mat) { mats = gen_mats(s, m.nel()); put_matset(s, n["matsets/mat"], mats, 0, "topo", &A, DataType::INT32_ID, DataType::FLOAT64_ID, true); }
    int nf = 1 + s.len(2); std::vector<std::pair<std::string, std::vector<double> > > fs; for(int i = 0; i < nf; i++) { std::vector<double> v; for(int e = 0; e < m.nel(); e++) v.push_back((double)s.range(-20, 20)); std::string nm = std::string("f") + "abc"[i]; Node &q = n["fields"][nm]; q["association"] = "element"; q["topology"] = "topo"; put(s, q["values"], num(s.pick<int>({DataType::FLOAT64_ID, DataType::INT32_ID}), v), &A); if(mat && i == 0) { q["matset"] = "mat"; put_matvals(s, q["matset_values"], mats, 0, [&](int e, int) { return v[e]; }, 0.0, DataType::FLOAT64_ID, &A); } fs.push_back(std::make_pair(nm, v)); }
    bool other = s.chance(1, 4); if(other) { n["coordsets/c9/type"] = "uniform"; n["coordsets/c9/dims/i"] = 4; n["topologies/t9/type"] = "uniform"; n["topologies/t9/coordset"] = "c9"; Node &q = n["fields/g9"]; q["association"] = "element"; q["topology"] = "t9"; q["values"] = {1.0, 2.0, 3.0}; }
    Node info; if(c.want_desc) c.desc << m.describe() << (mat ? " materials" : ""); c.nontrivial(m.nel() > 1); verify_mesh(n, "harness"); CHECK(bm::can_generate_strip(n, "topo", info), "a strip can be made: " << info.to_json()); Node orig; orig.set(n); bool opt = s.coin(); std::string tn = "strip", cn = "strip", fp = "strip_", mp = "strip_"; std::set<std::string> pick; bool all = true;
    if(!opt) bm::generate_strip(n, "topo", "strip");
    else { cn = "sc"; Node o; fp = "p_"; mp = "p_"; o["field_prefix"] = fp; if(s.coin()) { mp = "q_"; o["matset_prefix"] = mp; } if(s.chance(1, 3)) { all = false; if(s.coin()) { o["field_names"] = fs[0].first; pick.insert(fs[0].first); } else for(auto &f : fs) if(pick.empty() || s.coin()) { o["field_names"].append() = f.first; pick.insert(f.first); } } Node &st = n["topologies/strip"], &sc = n["coordsets/sc"], &sf = n["fields"]; bm::generate_strip(n["topologies/topo"], st, sc, sf, o); }
    CHECK(n["topologies"].has_child(tn) && n["coordsets"].has_child(cn), "the strip"); const Node &t = n["topologies"][tn], &cs = n["coordsets"][cn]; CHECK_EQ(t["coordset"].as_string(), cn, "coordset of the strip"); verify_mesh(n, "strip"); auto pts = read_points(cs); auto els = read_elems(t, cs); CHECK_EQ(els.size(), (size_t)m.nel(), "one element per line");
    for(int e = 0; e < m.nel(); e++) { CHECK_EQ(els[e].shape, std::string("quad"), "shape"); auto p = at(pts, els[e].v); std::set<std::pair<double, double> > got, want; for(auto &x : p) got.insert(std::make_pair(x[0], x[1])); for(int v : m.el[e].v) for(int k = 0; k < 2; k++) want.insert(std::make_pair((double)k, m.pts[v][0])); CHECK_EQ(got.size(), (size_t)4, "corners of element " << e); CHECK(got == want, "corners of element " << e); double area = 0; for(int i = 0; i < 4; i++) area += p[i][0] * p[(i + 1) % 4][1] - p[(i + 1) % 4][0] * p[i][1]; CHECK(std::fabs(std::fabs(area) / 2 - std::fabs(m.pts[m.el[e].v[1]][0] - m.pts[m.el[e].v[0]][0])) < 1e-6, "corners of element " << e << " in order around it"); }
    size_t made = 0; for(auto &f : fs) { bool w = all || pick.count(f.first); CHECK_EQ((bool)n["fields"].has_child(fp + f.first), w, "field " << f.first); if(!w) continue; made++; const Node &q = n["fields"][fp + f.first]; CHECK(q["topology"].as_string() == "strip" && q["association"].as_string() == "element", "topology of " << f.first); CHECK(dvals(q["values"]) == f.second, "values of " << f.first); if(mat && f.first == "fa") { CHECK_EQ(q["matset"].as_string(), mp + "mat", "matset of " << f.first); CHECK(n["matsets"].has_child(mp + "mat"), "matset of the strip"); CHECK_EQ(n["matsets"][mp + "mat"]["topology"].as_string(), std::string("strip"), "topology of the matset"); Node a, b2, i2; a.set(n["matsets"][mp + "mat"]); b2.set(orig["matsets/mat"]); a.remove("topology"); b2.remove("topology"); CHECK(!b2.diff(a, i2, 0.0), "the matset of the strip"); } }
    CHECK_EQ((size_t)n["fields"].number_of_children(), fs.size() + made + (other ? 1 : 0), "fields"); Node i3; for(auto *p : {"coordsets/coords", "topologies/topo"}) CHECK(!orig[p].diff(n[p], i3, 0.0), p << " changed"); for(auto &f : fs) CHECK(!orig["fields"][f.first].diff(n["fields"][f.first], i3, 0.0), f.first << " changed"); A.check_gaps("strips");
}
// the list of domains of any mesh
PBT(domains, 4000, 200000)
{
    int nd = (int)s.range(1, 4); Arena A; Node n; bool root = nd == 1 && s.coin(), list = s.coin(); std::vector<Mesh> ms; GenMesh g; g.cyl = false; for(int i = 0; i < nd; i++) { Mesh m = gen_mesh(s, g); NodeOpts o; put_mesh(s, root ? n : list ? n.append() : n["dom " + std::to_string(i)], m, o, &A); ms.push_back(m); } if(c.want_desc) c.desc << nd << " domains" << (root ? " at the root" : ""); c.nontrivial(nd > 1); CHECK_EQ(bm::is_multi_domain(n), !root, "is_multi_domain"); CHECK_EQ((int)bm::number_of_domains(n), nd, "number_of_domains");
    std::vector<Node *> d = bm::domains(n); CHECK_EQ((int)d.size(), nd, "domains"); const Node &cn = n; std::vector<const Node *> cd = bm::domains(cn); CHECK_EQ((int)cd.size(), nd, "const domains"); std::vector<Node *> d2; bm::domains(n, d2); CHECK(d2 == d, "domains"); for(int i = 0; i < nd; i++) { Node *w = root ? &n : n.child_ptr(i); CHECK(d[i] == w && cd[i] == w, "domain " << i); }
    Node o; o["junk"] = 1; bm::to_multi_domain(n, o); CHECK(bm::is_multi_domain(o), "many domains"); CHECK_EQ((int)o.number_of_children(), nd, "domains of to_multi_domain"); Node info; for(int i = 0; i < nd; i++) { CHECK(!d[i]->diff(o.child(i), info, 0.0), "domain " << i << " of to_multi_domain"); std::string p = "coordsets/coords/type"; CHECK(o.child(i)[p].data_ptr() == (*d[i])[p].data_ptr(), "data of to_multi_domain is shared"); }
    if(!root) { bm::generate_domain_ids(n); for(int i = 0; i < nd; i++) CHECK_EQ(n.child(i)["state/domain_id"].to_int(), i, "domain id"); } A.check_gaps("domains");
}
PBT_MAIN()

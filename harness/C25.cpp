// C25: adjacency sets - conversions, derived sets, validation and point queries, serial and MPI.
#include "pbt_main.hpp"
#include "model.hpp"
#include <mpi.h>
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
#include "conduit_blueprint_mpi_mesh_utils.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <list>
using namespace model; using namespace conduit; using pbt::Source; namespace bm = conduit::blueprint::mesh; namespace bu = conduit::blueprint::mesh::utils; namespace pm = conduit::blueprint::mpi::mesh;
typedef std::vector<int> VI; typedef std::set<int> SI; typedef std::array<double, 3> P3;

static void par(Source &s, int nr, std::function<void(int)> f) { try { fm::run(nr, [&s](uint64_t x) { return s.draw(x); }, f); } catch(fm::Failure &e) { throw pbt::Fail(e.what()); } }
static VI ints(const Node &n) { VI r; auto a = n.as_index_t_accessor(); for(index_t i = 0; i < a.number_of_elements(); i++) r.push_back((int)a[i]); return r; }

// A conforming mesh of one shape, cut into domains by elements.
struct Dom { int id; VI elems, l2g; std::map<int, int> g2l; };
struct World
{
    int dim; std::string shape; std::vector<P3> pts; std::vector<VI> el; std::vector<Dom> dom; VI order; // order: global order of points
    std::map<int, std::set<int> > on; // point -> ids of the domains that have it
    Node mesh; std::string form; bool canonical;
    int at(int id) const { for(size_t i = 0; i < dom.size(); i++) if(dom[i].id == id) return (int)i; return -1; }
    std::string name(const SI &ids) const { std::string r = canonical ? "group" : "shared"; if(!canonical) { int x = 0; for(int i : ids) x = x * 31 + i + 1; return r + std::to_string(x % 9973) + "x" + std::to_string(*ids.begin()) + "x" + std::to_string(*ids.rbegin()); } for(int i : ids) r += "_" + std::to_string(i); return r; }
};
static void put(Source &s, Node &n, const VI &v, bool wide) { (void)s; n.reset(); if(wide) { std::vector<int64> w(v.begin(), v.end()); n.set(w); } else { std::vector<int32> w(v.begin(), v.end()); n.set(w); } }
static void build_world(Source &s, World &w, bool any_form)
{
    w.shape = s.pick<std::string>({"quad", "tri", "hex", "tet"}); w.dim = w.shape == "quad" || w.shape == "tri" ? 2 : 3; int nx = 1 + (int)s.range(0, 3), ny = 1 + (int)s.range(0, 2), nz = w.dim == 3 ? 1 + (int)s.range(0, 1) : 0;
    auto pid = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
    for(int k = 0; k <= nz; k++) for(int j = 0; j <= ny; j++) for(int i = 0; i <= nx; i++) w.pts.push_back(P3{i + s.range(0, 15) / 64.0, j + s.range(0, 15) / 64.0, w.dim == 3 ? k + s.range(0, 15) / 64.0 : 0.0});
    for(int k = 0; k < std::max(nz, 1); k++) for(int j = 0; j < ny; j++) for(int i = 0; i < nx; i++)
    {
        int a = pid(i, j, k), b = pid(i + 1, j, k), c = pid(i + 1, j + 1, k), d = pid(i, j + 1, k); if(w.shape == "quad") w.el.push_back({a, b, c, d}); if(w.shape == "tri") { w.el.push_back({a, b, c}); w.el.push_back({a, c, d}); }
        if(w.dim == 3) { int e = pid(i, j, k + 1), f = pid(i + 1, j, k + 1), g = pid(i + 1, j + 1, k + 1), h = pid(i, j + 1, k + 1); if(w.shape == "hex") w.el.push_back({a, b, c, d, e, f, g, h}); else for(VI t : {VI{a, b, c, g}, VI{a, c, d, g}, VI{a, d, h, g}, VI{a, h, e, g}, VI{a, e, f, g}, VI{a, f, b, g}}) w.el.push_back(t); }
    }
    int nd = 2 + (int)s.range(0, 3); nd = std::min<int>(nd, (int)w.el.size()); bool gaps = s.chance(1, 3), scatter = s.coin(); VI ids; int at = 0; for(int i = 0; i < nd; i++) { if(gaps) at += (int)s.range(0, 3); ids.push_back(at++); } for(size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[s.range(0, i - 1)]);
    w.dom.resize(nd); for(int i = 0; i < nd; i++) w.dom[i].id = ids[i];
    for(size_t e = 0; e < w.el.size(); e++) { int d = e < (size_t)nd && scatter ? (int)e : scatter ? (int)s.range(0, nd - 1) : (int)(e * nd / w.el.size()); w.dom[d].elems.push_back((int)e); }
    for(int i = nd; i-- > 0;) if(w.dom[i].elems.empty()) w.dom.erase(w.dom.begin() + i);
    for(auto &d : w.dom) { SI p; for(int e : d.elems) p.insert(w.el[e].begin(), w.el[e].end()); d.l2g.assign(p.begin(), p.end()); for(size_t i = d.l2g.size(); i > 1; i--) std::swap(d.l2g[i - 1], d.l2g[s.range(0, i - 1)]); for(size_t i = 0; i < d.l2g.size(); i++) { d.g2l[d.l2g[i]] = (int)i; w.on[d.l2g[i]].insert(d.id); } if(s.coin()) for(size_t i = d.elems.size(); i > 1; i--) std::swap(d.elems[i - 1], d.elems[s.range(0, i - 1)]); }
    for(size_t i = 0; i < w.pts.size(); i++) w.order.push_back((int)i); for(size_t i = w.order.size(); i > 1; i--) std::swap(w.order[i - 1], w.order[s.range(0, i - 1)]);
    w.form = any_form ? s.pick<std::string>({"maxshare", "pairwise", "split", "overlap"}) : s.pick<std::string>({"maxshare", "pairwise"}); w.canonical = w.form != "split" && s.coin();
    // the sets of domains and the points each one lists, the same for all domains
    std::map<std::string, std::pair<SI, VI> > groups; for(int g : w.order) { const SI &o = w.on[g]; if(o.size() < 2) continue; auto add = [&](const SI &q, const std::string &suf) { auto &x = groups[w.name(q) + suf]; x.first = q; x.second.push_back(g); };
        if(w.form == "maxshare") add(o, ""); if(w.form == "split") add(o, g % 2 ? "" : "b"); if(w.form == "pairwise" || w.form == "overlap") for(int a : o) for(int b : o) if(a < b) add(SI{a, b}, ""); if(w.form == "overlap" && o.size() > 2) add(o, ""); }
    bool wide = s.coin(), list = s.coin(), f32 = s.chance(1, 4); std::vector<std::string> gn; for(auto &g : groups) gn.push_back(g.first);
    for(size_t i = 0; i < w.dom.size(); i++)
    {
        Dom &d = w.dom[i]; Node &n = list ? w.mesh.append() : w.mesh["dom" + std::to_string(i)]; if(wide) n["state/domain_id"] = (int64)d.id; else n["state/domain_id"] = (int32)d.id; n["coordsets/coords/type"] = "explicit"; for(int a = 0; a < w.dim; a++) { std::vector<double> v; for(int g : d.l2g) v.push_back(w.pts[g][a]); Node &q = n["coordsets/coords/values"][std::string(1, "xyz"[a])]; if(f32) q.set(std::vector<float>(v.begin(), v.end())); else q.set(v); }
        Node &t = n["topologies/mesh"]; t["type"] = "unstructured"; t["coordset"] = "coords"; t["elements/shape"] = w.shape; VI conn; for(int e : d.elems) for(int p : w.el[e]) conn.push_back(d.g2l[p]); put(s, t["elements/connectivity"], conn, s.coin());
        Node &a = n["adjsets/adj"]; a["association"] = "vertex"; a["topology"] = "mesh"; a["groups"].set(DataType::object()); std::vector<std::string> o = gn; for(size_t k = o.size(); k > 1; k--) std::swap(o[k - 1], o[s.range(0, k - 1)]);
        for(auto &g : o) { auto &x = groups[g]; if(!x.first.count(d.id)) continue; VI nb, v; for(int q : x.first) if(q != d.id) nb.push_back(q); if(s.chance(1, 3)) std::reverse(nb.begin(), nb.end()); for(int p : x.second) v.push_back(d.g2l[p]); put(s, a["groups"][g]["neighbors"], nb, wide); put(s, a["groups"][g]["values"], v, wide); }
    }
}
static void tell(pbt::Ctx &c, const World &w) { if(c.want_desc) { c.desc << w.shape << " " << w.form << "\n"; Node m; m.set(w.mesh); c.desc << m.to_yaml(); } c.label(w.form); c.label(w.shape); size_t k = 0; for(auto &o : w.on) k += o.second.size() > 1; c.nontrivial(k > 2); }
typedef std::set<int> Ent; // an entity: the global points it has
typedef std::function<Ent(const Dom &, const Node &domain, int v)> Who;
// reads an adjacency set: by group, the domains and what each of them lists
static void read_set(const World &w, Node &mesh, const std::string &name, Who who, std::map<SI, std::map<int, std::vector<Ent> > > &out, bool canonical)
{
    auto doms = bm::domains(mesh); for(auto *p : doms) { int id = (*p)["state/domain_id"].to_int(); int k = w.at(id); CHECK(k >= 0, "domain " << id); CHECK(p->has_path("adjsets/" + name), "set " << name << " of domain " << id); const Node &a = (*p)["adjsets"][name]; if(!a.has_child("groups")) continue; for(auto &g : a["groups"].child_names()) { const Node &gr = a["groups"][g]; VI nb = ints(gr["neighbors"]), v = ints(gr["values"]); SI all(nb.begin(), nb.end()); CHECK(all.size() == nb.size() && !all.count(id), "neighbours of " << g << " in domain " << id << ": " << gr.to_json()); all.insert(id); if(canonical) { std::string want = "group"; for(int x : all) want += "_" + std::to_string(x); CHECK_EQ(g, want, "name of a group of domain " << id); } CHECK(!v.empty(), "an empty group " << g); auto &o = out[all]; CHECK(!o.count(id), "two groups for the same domains: " << g); for(int x : v) o[id].push_back(who(w.dom[k], *p, x)); } }
}
static std::string show(const Ent &e) { std::string r = "{"; for(int x : e) r += std::to_string(x) + " "; return r + "}"; }
static std::string show(const SI &s, int) { return show(s); }
// every domain of a group has it, with the same entities in the same order
static void check_aligned(const std::map<SI, std::map<int, std::vector<Ent> > > &g, const std::string &what) { for(auto &x : g) { CHECK(x.second.size() == x.first.size(), what << ": group of domains " << show(x.first, 0) << " is in " << x.second.size() << " of them only"); const auto &first = *x.second.begin(); for(auto &y : x.second) { std::string l; for(auto &e : first.second) l += show(e); l += " / "; for(auto &e : y.second) l += show(e); CHECK(y.second == first.second, what << ": domains " << first.first << " and " << y.first << " of group " << show(x.first, 0) << " list " << l); SI dup; std::set<Ent> u(y.second.begin(), y.second.end()); CHECK(u.size() == y.second.size(), what << ": domain " << y.first << " lists an entity twice"); } } }
static Ent as_point(const Dom &d, const Node &, int v) { CHECK(v >= 0 && v < (int)d.l2g.size(), "point " << v); return Ent{d.l2g[v]}; }

PBT(convert, 6000, 600000)
{
    World w; build_world(s, w, true); tell(c, w); auto doms = bm::domains(w.mesh); M before = read(w.mesh);
    bool big = false; for(auto &o : w.on) big |= o.second.size() > 2; (void)big;
    for(auto *p : doms) { const Node &a = (*p)["adjsets/adj"]; bool pw = true, ms = true; SI seen; for(auto &g : a["groups"].child_names()) { pw &= a["groups"][g]["neighbors"].dtype().number_of_elements() == 1; for(int v : ints(a["groups"][g]["values"])) ms &= seen.insert(v).second; } CHECK_EQ(bm::adjset::is_pairwise(a), pw, "is_pairwise: " << a.to_json()); CHECK_EQ(bm::adjset::is_maxshare(a), ms, "is_maxshare: " << a.to_json()); if(a["groups"].number_of_children()) CHECK_EQ(bu::adjset::is_canonical(a), w.canonical, "is_canonical: " << a.to_json()); }
    // a set that lists points in pairs and in larger groups says the same thing
    std::map<SI, std::vector<Ent> > wantp, wantm; std::map<SI, std::set<Ent> > sp, sm; for(auto &o : w.on) if(o.second.size() > 1) { sm[o.second].insert(Ent{o.first}); for(int a : o.second) for(int b : o.second) if(a < b) sp[SI{a, b}].insert(Ent{o.first}); }
    int what = (int)s.range(0, 2); std::string src = "adj";
    if(what == 2) { bu::adjset::to_pairwise_canonical(w.mesh, "adj", "pw"); }
    else for(auto *p : doms) { Node &d = (*p)["adjsets/pw"]; if(s.coin()) { d["groups/old/values"] = 1; d["association"] = "element"; } bm::adjset::to_pairwise((*p)["adjsets/adj"], d); }
    std::map<SI, std::map<int, std::vector<Ent> > > g; read_set(w, w.mesh, "pw", as_point, g, true); check_aligned(g, "to_pairwise"); CHECK_EQ(g.size(), sp.size(), "pairs"); for(auto &x : sp) { CHECK(g.count(x.first), "pair " << show(x.first)); auto &l = g[x.first].begin()->second; CHECK(std::set<Ent>(l.begin(), l.end()) == x.second, "points of pair " << show(x.first)); }
    for(auto *p : doms) { const Node &d = (*p)["adjsets/pw"]; CHECK(bm::adjset::is_pairwise(d), "to_pairwise is not pairwise"); CHECK(bu::adjset::is_canonical(d), "to_pairwise is not canonical"); CHECK_EQ(d["association"].as_string(), std::string("vertex"), "association"); CHECK_EQ(d["topology"].as_string(), std::string("mesh"), "topology"); Node info; CHECK(bm::adjset::verify(d, info), "to_pairwise does not verify: " << info.to_yaml()); if(w.form != "overlap" && s.coin()) src = "pw"; }
    for(auto *p : doms) bm::adjset::to_maxshare((*p)["adjsets"][src], (*p)["adjsets/ms"]);
    g.clear(); read_set(w, w.mesh, "ms", as_point, g, true); check_aligned(g, "to_maxshare"); CHECK_EQ(g.size(), sm.size(), "groups"); for(auto &x : sm) { CHECK(g.count(x.first), "group " << show(x.first)); auto &l = g[x.first].begin()->second; CHECK(std::set<Ent>(l.begin(), l.end()) == x.second, "points of group " << show(x.first)); }
    for(auto *p : doms) { const Node &d = (*p)["adjsets/ms"]; CHECK(bm::adjset::is_maxshare(d), "to_maxshare is not maxshare"); Node info; CHECK(bm::adjset::verify(d, info), "to_maxshare does not verify"); }
    bu::adjset::remove(w.mesh, "pw"); bu::adjset::remove(w.mesh, "ms"); CHECK_NODE(w.mesh, before, "the mesh");
}
static void deal(Source &s, World &w, int nr, std::vector<Node> &m) { m.clear(); m.resize(nr); for(auto *p : bm::domains(w.mesh)) { Node &n = m[s.range(0, nr - 1)]; int id = (*p)["state/domain_id"].to_int(); n["d" + std::to_string(id)].set(*p); } for(auto &n : m) if(n.number_of_children() == 1 && s.chance(1, 3)) { Node t; t.set(n.child(0)); n.set(t); } }
static void collect(std::vector<Node> &m, Node &all) { all.set(DataType::list()); for(auto &n : m) for(auto *p : bm::domains(n)) all.append().set(*p); }

PBT(derived, 2500, 250000)
{
    World w; build_world(s, w, false); tell(c, w); int nr = (int)s.range(0, 3); std::string what = s.pick<std::string>({"faces", "lines", "points", "corners"}); if(c.want_desc) c.desc << what << " on " << nr << " ranks\n"; c.label(what); c.label(nr ? "mpi" : "serial");
    Node all;
    if(nr == 0)
    {
        Node s2d, d2s; bu::query::MatchQuery mq(w.mesh); bu::query::PointQuery pq(w.mesh); if(what == "faces") bm::generate_faces(w.mesh, "adj", "out", "new", s2d, d2s, mq); if(what == "lines") bm::generate_lines(w.mesh, "adj", "out", "new", s2d, d2s, mq); if(what == "points") bm::generate_points(w.mesh, "adj", "out", "new", s2d, d2s, mq); if(what == "corners") bm::generate_corners(w.mesh, "adj", "out", "new", "newc", s2d, d2s, pq); all.set(w.mesh);
    }
    else
    {
        std::vector<Node> m; deal(s, w, nr, m); par(s, nr, [&](int r) { Node s2d, d2s; if(what == "faces") pm::generate_faces(m[r], "adj", "out", "new", s2d, d2s, MPI_COMM_WORLD); if(what == "lines") pm::generate_lines(m[r], "adj", "out", "new", s2d, d2s, MPI_COMM_WORLD); if(what == "points") pm::generate_points(m[r], "adj", "out", "new", s2d, d2s, MPI_COMM_WORLD); if(what == "corners") pm::generate_corners(m[r], "adj", "out", "new", "newc", s2d, d2s, MPI_COMM_WORLD); }); collect(m, all);
    }
    // the entities of each domain: how many of its elements have each
    auto subs_of = [&](const VI &e, int k) { std::vector<Ent> r; if(k == 0) for(int p : e) r.push_back({p}); if(k == w.dim) r.push_back(Ent(e.begin(), e.end())); std::vector<VI> q; if(k == 1 && k < w.dim) { if(w.shape == "quad") q = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; if(w.shape == "tri") q = {{0, 1}, {1, 2}, {2, 0}}; if(w.shape == "tet") q = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; if(w.shape == "hex") q = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}; } if(k == 2 && k < w.dim) { if(w.shape == "tet") q = {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}}; else q = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; } for(auto &x : q) { Ent t; for(int i : x) t.insert(e[i]); r.push_back(t); } return r; };
    std::map<Ent, std::map<int, int> > have; std::map<std::string, Ent> where; std::vector<int> ks; if(what == "points") ks = {0}; if(what == "lines") ks = {1}; if(what == "faces") ks = {2}; if(what == "corners") { for(int k = 0; k < w.dim; k++) ks.push_back(k); }
    auto spot = [](const std::vector<double> &p) { std::string r; for(double x : p) r += std::to_string((long)std::llround(x * 1e4)) + ","; return r; };
    for(auto &d : w.dom) for(int e : d.elems) for(int k : ks) for(auto &x : subs_of(w.el[e], k)) { have[x][d.id]++; std::vector<double> p(w.dim, 0.0); for(int q : x) for(int a = 0; a < w.dim; a++) p[a] += w.pts[q][a] / x.size(); where[spot(p)] = x; }
    Who who; if(what == "corners") who = [&](const Dom &, const Node &n, int v) { std::vector<double> p; const Node &cv = n["coordsets/newc/values"]; for(int a = 0; a < w.dim; a++) { auto ac = cv[a].as_double_accessor(); CHECK(v >= 0 && v < ac.number_of_elements(), "corner point " << v); p.push_back(ac[v]); } auto it = where.find(spot(p)); CHECK(it != where.end(), "shared corner point " << v << " is no point, line or face"); return it->second; };
    else who = [&](const Dom &d, const Node &n, int v) { const Node &t = n["topologies/new"]; CHECK(v >= 0 && v < bu::topology::length(t), "entity " << v); Ent e; for(auto p : bu::topology::unstructured::points(t, v)) e.insert(d.l2g[p]); return e; };
    std::map<SI, std::map<int, std::vector<Ent> > > g; read_set(w, all, "out", who, g, true); check_aligned(g, what);
    bool exact = !(what == "lines" && w.dim == 3); std::map<SI, std::set<Ent> > want; for(auto &h : have) { SI o; for(auto &x : h.second) if(what == "corners" || h.first.size() == 1 || x.second == 1 || !exact) o.insert(x.first); if(o.size() > 1) want[o].insert(h.first); }
    if(exact) { for(auto &x : want) { CHECK(g.count(x.first), what << ": no group for domains " << show(x.first)); auto &l = g[x.first].begin()->second; std::set<Ent> got(l.begin(), l.end()); for(auto &e : x.second) CHECK(got.count(e), what << ": entity " << show(e) << " missing from group " << show(x.first)); } }
    for(auto &x : g) for(auto &e : x.second.begin()->second) { auto it = have.find(e); CHECK(it != have.end(), "no such entity " << show(e)); for(int d : x.first) CHECK(it->second.count(d), what << ": entity " << show(e) << " is not in domain " << d); if(exact) CHECK(want[x.first].count(e), what << ": entity " << show(e) << " in group " << show(x.first)); }
    for(auto *p : bm::domains(all)) { const Node &a = (*p)["adjsets/out"]; CHECK_EQ(a["association"].as_string(), std::string(what == "corners" ? "vertex" : "element"), "association"); CHECK_EQ(a["topology"].as_string(), std::string("new"), "topology"); }
}
PBT(validate, 3000, 300000)
{
    World w; build_world(s, w, false); int nr = (int)s.range(0, 3); if(c.want_desc) c.desc << nr << " ranks\n"; bool elem = s.chance(1, 3); std::string name = "adj";
    if(elem) { Node a, b; bu::query::MatchQuery mq(w.mesh); if(w.dim == 2) bm::generate_lines(w.mesh, "adj", "ent", "ents", a, b, mq); else bm::generate_faces(w.mesh, "adj", "ent", "ents", a, b, mq); name = "ent"; for(auto *p : bm::domains(w.mesh)) if(!(*p)["adjsets/ent"].has_child("groups")) (*p)["adjsets/ent/groups"].set(DataType::object()); }
    // spoil a group: an entity the neighbours do not have, or all groups towards a domain left out
    bool bad = false; std::string how; auto doms = bm::domains(w.mesh); int mode = (int)s.range(0, 3); std::vector<std::pair<Node *, std::string> > gs; for(auto *p : doms) for(auto &g : (*p)["adjsets"][name]["groups"].child_names()) gs.push_back({p, g});
    if(mode == 1 && !gs.empty())
    {
        auto &x = gs[s.range(0, gs.size() - 1)]; Node &gr = (*x.first)["adjsets"][name]["groups"][x.second]; int id = (*x.first)["state/domain_id"].to_int(); Dom &d = w.dom[w.at(id)]; VI nb = ints(gr["neighbors"]), v = ints(gr["values"]); int lost = nb[s.range(0, nb.size() - 1)]; Dom &o = w.dom[w.at(lost)]; VI cand;
        if(!elem) { for(size_t i = 0; i < d.l2g.size(); i++) if(!o.g2l.count(d.l2g[i])) cand.push_back((int)i); } else { const Node &t = (*x.first)["topologies/ents"]; for(index_t i = 0; i < bu::topology::length(t); i++) { bool in = true; for(auto p : bu::topology::unstructured::points(t, i)) in &= o.g2l.count(d.l2g[p]) > 0; if(!in) cand.push_back((int)i); } }
        if(!cand.empty()) { v[s.range(0, v.size() - 1)] = cand[s.range(0, cand.size() - 1)]; put(s, gr["values"], v, true); bad = true; how = "wrong entity in domain " + std::to_string(id) + " group " + x.second; }
    }
    if(mode == 2 && !gs.empty() && !elem)
    {
        auto &x = gs[s.range(0, gs.size() - 1)]; Node &gr = (*x.first)["adjsets"][name]["groups"][x.second]; int lost = ints(gr["neighbors"])[0]; Node &groups = (*x.first)["adjsets"][name]["groups"]; std::vector<std::string> gnames = groups.child_names(); for(auto &g : gnames) { VI nb = ints(groups[g]["neighbors"]); if(std::find(nb.begin(), nb.end(), lost) != nb.end()) groups.remove(g); } bad = true; how = "domain " + (*x.first)["state/domain_id"].to_string() + " does not know domain " + std::to_string(lost);
    }
    tell(c, w); if(c.want_desc) c.desc << "spoiled: " << how << "\n"; c.label(bad ? (mode == 1 ? "wrong entity" : "one-sided") : "valid"); c.label(elem ? "element" : "vertex"); M before = read(w.mesh);
    if(nr == 0) { Node info; bool got = bu::adjset::validate(w.mesh, name, info); CHECK_EQ(got, !bad, "validate " << how << "\n" << info.to_yaml()); if(!got) CHECK(info.number_of_children() > 0, "no reason given"); CHECK_NODE(w.mesh, before, "the mesh"); }
    else { std::vector<Node> m, info(nr); deal(s, w, nr, m); std::vector<char> got(nr); par(s, nr, [&](int r) { got[r] = pm::utils::adjset::validate(m[r], name, info[r], MPI_COMM_WORLD); }); for(int r = 0; r < nr; r++) CHECK_EQ((bool)got[r], !bad, "validate on rank " << r << " " << how << "\n" << info[r].to_yaml()); }
}
PBT(compare, 3000, 300000)
{
    World w; build_world(s, w, false); int nr = (int)s.range(0, 3); if(c.want_desc) c.desc << nr << " ranks\n"; auto doms = bm::domains(w.mesh); bool bad = false; std::string how; int mode = (int)s.range(0, 3); std::vector<std::pair<Node *, std::string> > gs; for(auto *p : doms) for(auto &g : (*p)["adjsets/adj/groups"].child_names()) gs.push_back({p, g});
    if(mode && !gs.empty())
    {
        auto &x = gs[s.range(0, gs.size() - 1)]; Node &gr = (*x.first)["adjsets/adj/groups"][x.second]; VI v = ints(gr["values"]); how = "domain " + (*x.first)["state/domain_id"].to_string() + " group " + x.second;
        if(mode == 1 && v.size() > 1) { size_t i = s.range(0, v.size() - 2), j = s.range(i + 1, v.size() - 1); std::swap(v[i], v[j]); bad = true; how += " out of order"; } if(mode == 2 && v.size() > 1) { v.erase(v.begin() + s.range(0, v.size() - 1)); bad = true; how += " lacks a point"; } if(mode == 3) { (*x.first)["adjsets/adj/groups"].remove(x.second); bad = true; how += " removed"; } else put(s, gr["values"], v, true);
    }
    tell(c, w); if(c.want_desc) c.desc << "spoiled: " << how << "\n"; c.label(bad ? "spoiled" : "right"); M before = read(w.mesh);
    if(nr == 0) { Node info; CHECK_EQ(bu::adjset::compare_pointwise(w.mesh, "adj", info), !bad, "compare_pointwise: " << how << "\n" << info.to_yaml()); CHECK_NODE(w.mesh, before, "the mesh"); }
    else { std::vector<Node> m, info(nr); deal(s, w, nr, m); std::vector<char> got(nr); std::vector<M> b; for(auto &x : m) b.push_back(read(x)); par(s, nr, [&](int r) { got[r] = pm::utils::adjset::compare_pointwise(m[r], "adj", info[r], MPI_COMM_WORLD); }); for(int r = 0; r < nr; r++) { CHECK_EQ((bool)got[r], !bad, "compare_pointwise on rank " << r << ": " << how << "\n" << info[r].to_yaml()); CHECK_NODE(m[r], b[r], "the mesh of rank " << r); } }
}
PBT(points, 4000, 400000)
{
    World w; build_world(s, w, false); tell(c, w); int nr = (int)s.range(0, 3); std::vector<Node> m; if(nr) deal(s, w, nr, m); double tol = s.pick<double>({0.0, 1e-6, 0.02}); int asks = std::max(nr, 1); if(c.want_desc) c.desc << nr << " ranks, tolerance " << tol << "\n";
    struct Q { int dom; index_t idx; P3 p; }; std::vector<std::vector<Q> > q(asks); std::vector<std::unique_ptr<bu::query::PointQuery> > pq; for(int r = 0; r < asks; r++) pq.emplace_back(nr ? (bu::query::PointQuery *)new pm::utils::query::PointQuery(m[r], MPI_COMM_WORLD) : new bu::query::PointQuery(w.mesh)); if(tol > 0) for(auto &x : pq) x->setPointTolerance(tol); double t = tol > 0 ? tol : 1e-9;
    for(int r = 0; r < asks; r++) { int n = s.len(12); std::map<int, int> cnt; for(int i = 0; i < n; i++) { Q x; x.dom = w.dom[s.range(0, w.dom.size() - 1)].id; x.p = w.pts[s.range(0, w.pts.size() - 1)]; double off = s.pick<double>({0.0, 0.5, 4.0}) * t; x.p[s.range(0, w.dim - 1)] += s.coin() ? off : -off; x.idx = pq[r]->add(x.dom, &x.p[0]); CHECK_EQ(x.idx, (index_t)cnt[x.dom]++, "index of a query"); q[r].push_back(x); } }
    if(nr == 0) pq[0]->execute("coords"); else par(s, nr, [&](int r) { pq[r]->execute("coords"); });
    for(int r = 0; r < asks; r++) for(auto &x : q[r]) { const Dom &d = w.dom[w.at(x.dom)]; auto &res = pq[r]->results(x.dom); CHECK(x.idx < (index_t)res.size(), "number of results of domain " << x.dom); int want = -1; for(size_t i = 0; i < d.l2g.size() && want < 0; i++) { double e = 0; for(int a = 0; a < w.dim; a++) { double f = w.pts[d.l2g[i]][a] - x.p[a]; e += f * f; } if(e < t * t) want = (int)i; } CHECK_EQ(res[x.idx], want, "point " << x.p[0] << " " << x.p[1] << " " << x.p[2] << " in domain " << x.dom); }
    for(int r = 0; r < asks; r++) { SI a; for(auto &x : q[r]) a.insert(x.dom); std::vector<int> ids = pq[r]->queryDomainIds(); CHECK(a == SI(ids.begin(), ids.end()), "query domains"); }
}
// coordsets large enough for the search tree
PBT(tree, 24, 1500)
{
    int dim = 2 + (int)s.range(0, 1), n = 15625 + (int)s.range(0, 3000); bool f32 = s.coin(), grid = s.coin(), inter = s.chance(1, 3); std::vector<std::vector<double> > v(dim, std::vector<double>(n)); uint64_t h = s.draw(1u << 30); for(int i = 0; i < n; i++) for(int a = 0; a < dim; a++) { h = pbt::mix(h); v[a][i] = grid ? (double)((a == 0 ? i % 26 : a == 1 ? (i / 26) % (dim == 2 ? 1000 : 26) : i / 676)) : (double)(h % 100000) / 64.0; }
    Node mesh; mesh["coordsets/coords/type"] = "explicit"; Node &val = mesh["coordsets/coords/values"]; if(inter) { std::vector<double> z; for(int i = 0; i < n; i++) for(int a = 0; a < dim; a++) z.push_back(v[a][i]); mesh["hold"].set(z); if(f32) { std::vector<float> zf(z.begin(), z.end()); mesh["hold"].set(zf); } for(int a = 0; a < dim; a++) { if(f32) val[std::string(1, "xyz"[a])].set_external((float *)mesh["hold"].data_ptr(), n, a * 4, dim * 4); else val[std::string(1, "xyz"[a])].set_external((double *)mesh["hold"].data_ptr(), n, a * 8, dim * 8); } } else for(int a = 0; a < dim; a++) { if(f32) val[std::string(1, "xyz"[a])].set(std::vector<float>(v[a].begin(), v[a].end())); else val[std::string(1, "xyz"[a])].set(v[a]); }
    mesh["topologies/mesh/type"] = "points"; mesh["topologies/mesh/coordset"] = "coords"; c.nontrivial(true); if(c.want_desc) c.desc << n << " points in " << dim << "D f32 " << f32 << " grid " << grid << " interleaved " << inter << "\n";
    bu::query::PointQuery pq(mesh); std::vector<std::pair<P3, bool> > q; for(int k = 0; k < 400; k++) { int i = (int)s.range(0, n - 1); P3 p{0, 0, 0}; for(int a = 0; a < dim; a++) p[a] = v[a][i]; bool miss = s.chance(1, 4); if(miss) p[s.range(0, dim - 1)] += 0.25 / 64; q.push_back({p, !miss}); pq.add(0, &p[0]); } pq.execute("coords"); auto &r = pq.results(0); CHECK_EQ(r.size(), q.size(), "results");
    for(size_t k = 0; k < q.size(); k++) { if(!q[k].second) { CHECK_EQ(r[k], -1, "a point that is not there"); continue; } CHECK(r[k] >= 0 && r[k] < n, "point " << k << " (" << q[k].first[0] << "," << q[k].first[1] << "," << q[k].first[2] << ") not found: " << r[k]); for(int a = 0; a < dim; a++) CHECK_EQ(v[a][r[k]], q[k].first[a], "coordinate " << a); }
}
PBT(paint, 2500, 250000)
{
    World w; build_world(s, w, true); tell(c, w); auto doms = bm::domains(w.mesh); bool skip = s.chance(1, 3), twice = s.chance(1, 3); Node *without = skip ? doms[s.range(0, doms.size() - 1)] : nullptr; if(without) without->remove("adjsets"); std::string name = "adj"; M before = read(w.mesh); Node orig; orig.set(w.mesh);
    bm::paint_adjset("adj", "p", w.mesh); if(twice) bm::paint_adjset("adj", "p", w.mesh);
    for(auto *p : doms) { if(p == without) { CHECK(!p->has_child("fields"), "fields in a domain without a set"); continue; } int id = (*p)["state/domain_id"].to_int(); const Dom &d = w.dom[w.at(id)]; size_t n = d.l2g.size(); VI cnt(n, 0); const Node &gs = (*p)["adjsets/adj/groups"]; size_t nf = 1 + gs.number_of_children(); CHECK_EQ((size_t)(*p)["fields"].number_of_children(), nf, "fields"); for(auto &g : gs.child_names()) { VI ord(n, -1), v = ints(gs[g]["values"]); for(size_t i = 0; i < v.size(); i++) { cnt[v[i]]++; ord[v[i]] = (int)i; } CHECK(p->has_path("fields/p_order_" + g), "field of group " << g); const Node &f = (*p)["fields/p_order_" + g]; CHECK(ints(f["values"]) == ord, "order in group " << g); } const Node &f = (*p)["fields/p_group_count"]; CHECK(ints(f["values"]) == cnt, "counts of domain " << id << (twice ? " painted twice: " : ": ") << f["values"].to_json()); Node info; CHECK(bm::field::verify(f, info), "field"); CHECK_EQ(f["association"].as_string(), std::string("vertex"), "association"); CHECK_EQ(f["topology"].as_string(), std::string("mesh"), "topology"); p->remove("fields"); }
    CHECK_NODE(w.mesh, before, "the mesh");
}
PBT_MAIN()

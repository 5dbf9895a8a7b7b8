// Selections for partitioning and the check that parts hold exactly the selected elements.
#ifndef VPARTS_CHECK_HPP
#define VPARTS_CHECK_HPP
#include "parts.hpp"
namespace vparts {
using namespace model; namespace bm = conduit::blueprint::mesh;
typedef std::pair<int64_t, int> DE;    // domain id, element
typedef std::vector<DE> Sel;
inline Sel whole(const Set &S) { Sel r; for(auto &d : S.d) for(int i = 0; i < d.m.nel(); i++) r.push_back(DE(d.id, i)); return r; }
// a random selection; returns the selected elements
inline Sel gen_selection(Source &s, const Set &S, Node &o, bool &field)
{
    Node &n = o.append(); const Dom &d = S.d[s.range(0, (int64_t)S.d.size() - 1)]; bool logical = d.m.topo != "unstructured" && d.m.topo != "points"; int k = logical ? (int)s.weighted({4, 2, 2}) : (int)s.weighted({0, 2, 2}); Sel r; (void)field;
    auto ids = [&](Node &q, const VI &v) { put(s, q, num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID}), v), NULL); };
    if(s.coin()) n["topology"] = "topo";
    n["domain_id"] = s.coin() ? (int64)d.id : (int64)d.id;
    if(k == 0)
    {
        n["type"] = "logical"; VI lo(3, 0), hi(3, 0), en; for(int a = 0; a < d.m.dim; a++) { lo[a] = (int)s.range(0, d.m.ne[a] - 1); hi[a] = (int)s.range(lo[a], d.m.ne[a] - 1); } en = hi; for(int a = 0; a < 3; a++) if(a >= d.m.dim || (hi[a] == d.m.ne[a] - 1 && s.chance(1, 4))) en[a] += s.chance(1, 3) ? (int)s.range(0, 5) : 0;
        ids(n["start"], lo); ids(n["end"], en); for(int kk = lo[2]; kk <= hi[2]; kk++) for(int j = lo[1]; j <= hi[1]; j++) for(int i = lo[0]; i <= hi[0]; i++) r.push_back(DE(d.id, i + d.m.ne[0] * (j + (d.m.dim > 1 ? d.m.ne[1] : 1) * kk)));
    }
    else if(k == 1)
    {
        n["type"] = "explicit"; VI e; for(int i = 0; i < d.m.nel(); i++) e.push_back(i); for(int i = d.m.nel() - 1; i > 0; i--) if(s.coin()) std::swap(e[i], e[s.range(0, i)]); e.resize(1 + s.range(0, d.m.nel() - 1)); ids(n["elements"], e); for(int i : e) r.push_back(DE(d.id, i));
    }
    else
    {
        n["type"] = "ranges"; VI e; int at = 0; while(at < d.m.nel() && (e.empty() || s.chance(2, 3))) { int lo = at + (int)s.range(0, std::min(2, d.m.nel() - 1 - at)), hi = lo + (int)s.range(0, d.m.nel() - 1 - lo); e.push_back(lo); e.push_back(hi); for(int i = lo; i <= hi; i++) r.push_back(DE(d.id, i)); at = hi + 1; } ids(n["ranges"], e);
    }
    return r;
}
inline P3 mean(const std::vector<P3> &p) { P3 c = {0, 0, 0}; for(auto &q : p) for(int a = 0; a < 3; a++) c[a] += q[a] / p.size(); return c; }
inline bool near(const P3 &a, const P3 &b) { for(int i = 0; i < 3; i++) if(std::fabs(a[i] - b[i]) > 1e-5) return false; return true; }
inline std::vector<std::vector<P3> > loops(const Elem &e, const std::vector<P3> &p) { std::vector<std::vector<P3> > r; auto add = [&](const VI &v) { std::vector<P3> q; for(int i : v) { CHECK(i >= 0 && i < (int)p.size(), "vertex id " << i << " of " << p.size() << " points"); q.push_back(p[i]); } r.push_back(q); }; if(e.shape == "polyhedral") for(auto &f : e.faces) add(f); else add(e.v); return r; }
inline bool same_loop(const std::vector<P3> &a, const std::vector<P3> &b, bool cyc)
{
    if(a.size() != b.size()) return false; size_t n = a.size(); if(!cyc) { for(size_t i = 0; i < n; i++) if(!near(a[i], b[i])) return false; return true; }
    for(int dir = 0; dir < 2; dir++) for(size_t o = 0; o < n; o++) { bool ok = true; for(size_t i = 0; i < n && ok; i++) ok = near(a[i], b[dir ? (o + n - i) % n : (o + i) % n]); if(ok) return true; }
    return false;
}
// the element at the same place, up to the shape name (quad and hex may become polygonal and polyhedral)
inline void same_element(const Elem &g, const std::vector<P3> &gp, const Elem &w, const std::vector<P3> &wp, const char *what, const DE &de)
{
    auto G = loops(g, gp); std::vector<std::vector<P3> > W; Elem w2 = w;
    if(g.shape == "polyhedral" && w.shape != "polyhedral") { w2.shape = "polyhedral"; w2.faces = faces_of(w); }
    else if(g.shape == "polygonal" && shape_dim(w.shape) == 2) w2.shape = "polygonal";
    CHECK_EQ(g.shape, w2.shape, what << ": shape of the element from " << de.first << "/" << de.second);
    W = loops(w2, wp); CHECK_EQ(G.size(), W.size(), what << ": faces of the element from " << de.first << "/" << de.second); bool ph = g.shape == "polyhedral"; std::vector<char> used(W.size(), 0);
    for(size_t i = 0; i < G.size(); i++) { bool f = false; if(ph) { for(size_t j = 0; j < W.size() && !f; j++) if(!used[j] && same_loop(G[i], W[j], true)) { used[j] = 1; f = true; } } else f = same_loop(G[i], W[i], false);
        if(!f) { std::ostringstream o; for(auto &p : G[i]) o << "(" << p[0] << " " << p[1] << " " << p[2] << ")"; o << " instead of "; for(auto &p : W[ph ? 0 : i]) o << "(" << p[0] << " " << p[1] << " " << p[2] << ")"; CHECK(false, what << ": points of the element from " << de.first << "/" << de.second << ": " << o.str()); } }
}
struct Conf { std::string eo = "original_element_ids", vo = "original_vertex_ids"; bool mapping = true; std::set<std::string> fields; bool all = true, as_set = false; };
inline std::vector<std::pair<int64_t, Sel> > check_parts(const Set &S, const Node &out, const Sel &want, const Conf &cf, const char *what)
{
    std::vector<const Node *> doms; { Node &o2 = const_cast<Node &>(out); for(auto *p : bm::domains(o2)) doms.push_back(p); }
    std::vector<std::pair<int64_t, Sel> > r; std::set<int64_t> ids; Sel all; std::map<int64_t, const Dom *> by; for(auto &d : S.d) by[d.id] = &d;
    for(auto *dp : doms)
    {
        const Node &n = *dp; verify_mesh(n, what); CHECK(n.has_path("state/domain_id"), what << ": a domain has an id"); int64_t id = n["state/domain_id"].to_int64(); CHECK(ids.insert(id).second, what << ": domain id " << id << " is used once");
        CHECK_EQ(n["topologies"].number_of_children(), (index_t)1, what << ": topologies"); const Node &t = n["topologies"][0]; CHECK_EQ(t.name(), std::string("topo"), what << ": topology name"); const Node &cs = n["coordsets"][t["coordset"].as_string()];
        auto pts = read_points(cs); auto els = read_elems(t, cs); CHECK(!els.empty(), what << ": a domain has elements");
        if(cs["type"].as_string() == "explicit") { std::set<std::array<long, 3> > u; for(auto &p : pts) CHECK(u.insert(std::array<long, 3>{std::lround(p[0] * 1024), std::lround(p[1] * 1024), std::lround(p[2] * 1024)}).second, what << ": point " << p[0] << " " << p[1] << " " << p[2] << " is there twice"); }
        if(!cf.mapping) { CHECK(!n.has_path("fields/" + cf.eo) && !n.has_path("fields/" + cf.vo), what << ": no mapping fields"); r.push_back(std::make_pair(id, Sel(els.size()))); continue; }
        CHECK(n.has_path("fields/" + cf.eo + "/values/ids") && n.has_path("fields/" + cf.vo + "/values/domains"), what << ": mapping fields");
        const Node &fe = n["fields"][cf.eo], &fv = n["fields"][cf.vo]; CHECK(fe["association"].as_string() == "element" && fv["association"].as_string() == "vertex" && fe["topology"].as_string() == "topo", what << ": associations of the mapping fields");
        VI ed = ivals(fe["values/domains"]), ei = ivals(fe["values/ids"]), vd = ivals(fv["values/domains"]), vi = ivals(fv["values/ids"]);
        CHECK_EQ(ed.size(), els.size(), what << ": element domains"); CHECK_EQ(ei.size(), els.size(), what << ": element ids"); CHECK_EQ(vd.size(), pts.size(), what << ": vertex domains"); CHECK_EQ(vi.size(), pts.size(), what << ": vertex ids"); Sel mine;
        for(size_t i = 0; i < els.size(); i++) { CHECK(by.count(ed[i]), what << ": original domain " << ed[i]); const Dom &d = *by[ed[i]]; CHECK(ei[i] >= 0 && ei[i] < d.m.nel(), what << ": original element " << ei[i]); DE de(ed[i], ei[i]); mine.push_back(de); same_element(els[i], pts, d.m.el[ei[i]], d.m.pts, what, de); }
        for(size_t i = 0; i < pts.size(); i++) { CHECK(by.count(vd[i]), what << ": original domain of point " << i << ": " << vd[i]); const Dom &d = *by[vd[i]]; CHECK(vi[i] >= 0 && vi[i] < d.m.npts(), what << ": original vertex " << vi[i]); CHECK(near(pts[i], d.m.pts[vi[i]]), what << ": point " << i << " (" << pts[i][0] << " " << pts[i][1] << " " << pts[i][2] << ") is that of domain " << vd[i] << " vertex " << vi[i]); }
        // fields
        size_t nf = 2; const Dom &d0 = S.d[0]; size_t fcount = d0.f.size() + (d0.gv.empty() ? 0 : 1);
        for(size_t q = 0; q < fcount; q++)
        {
            bool isg = q >= d0.f.size(); std::string fn = isg ? "global_vertex_ids" : d0.f[q].name; bool want_f = cf.all || cf.fields.count(fn); CHECK_EQ((bool)n["fields"].has_child(fn), want_f, what << ": field " << fn); if(!want_f) continue; nf++; const Node &f = n["fields"][fn]; bool vert = isg || d0.f[q].vertex;
            CHECK_EQ(f["association"].as_string(), std::string(vert ? "vertex" : "element"), what << ": association of " << fn); CHECK_EQ(f["topology"].as_string(), std::string("topo"), what << ": topology of " << fn); size_t nc = isg ? 0 : d0.f[q].comps.size(); CHECK_EQ((size_t)f["values"].number_of_children(), nc, what << ": components of " << fn);
            for(size_t c = 0; c < std::max<size_t>(1, nc); c++) { std::vector<double> v = dvals(nc ? f["values"][d0.f[q].comps[c]] : f["values"]); CHECK_EQ(v.size(), vert ? pts.size() : els.size(), what << ": length of " << fn); for(size_t i = 0; i < v.size(); i++) { const Dom &d = *by[vert ? vd[i] : ed[i]]; int w = vert ? vi[i] : ei[i]; double x = isg ? d.gv[w] : d.f[q].v[c][w]; CHECK_EQ(v[i], x, what << ": " << fn << " at " << i << " from " << d.id << "/" << w); } }
        }
        CHECK_EQ((size_t)n["fields"].number_of_children(), nf, what << ": fields"); r.push_back(std::make_pair(id, mine)); all.insert(all.end(), mine.begin(), mine.end());
    }
    if(cf.mapping) { Sel a = all, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if(cf.as_set) { a.erase(std::unique(a.begin(), a.end()), a.end()); b.erase(std::unique(b.begin(), b.end()), b.end()); } if(a != b) { std::ostringstream o; o << "got"; for(auto &x : a) o << " " << x.first << "/" << x.second; o << " want"; for(auto &x : b) o << " " << x.first << "/" << x.second; CHECK(false, what << ": the elements of the parts: " << o.str()); } }
    else { size_t k = 0; for(auto &x : r) k += x.second.size(); CHECK_EQ(k, want.size(), what << ": number of elements"); }
    return r;
}
inline void gen_conf(Source &s, const Set &S, Node &o, Conf &cf)
{
    if(s.chance(1, 6)) { cf.eo = "my elems"; o["original_element_ids"] = cf.eo; } if(s.chance(1, 6)) { cf.vo = "vv"; o["original_vertex_ids"] = cf.vo; }
    if(s.chance(1, 5)) { cf.mapping = s.coin(); o["mapping"] = (int32)(cf.mapping ? 1 : 0); }
    if(s.chance(1, 4)) { cf.all = false; for(auto &f : S.d[0].f) if(s.coin()) cf.fields.insert(f.name); if(!S.d[0].gv.empty() && s.coin()) cf.fields.insert("global_vertex_ids"); if(cf.fields.empty()) cf.all = true; else for(auto &f : cf.fields) o["fields"].append() = f; }
    if(s.chance(1, 8)) o["merge_tolerance"] = 1e-6;
}
inline void describe(pbt::Ctx &c, const Set &S, const Node &o) { if(!c.want_desc) return; for(auto &d : S.d) c.desc << d.id << ": " << d.m.describe() << "; "; c.desc << (S.split ? "split " : "") << o.to_json("json", 0); }
inline Opts family(Source &s) { Opts o; o.g.cyl = false; o.g.topos = {"uniform", "rectilinear", "structured", "unstructured", "unstructured"}; (void)s; return o; }
} // namespace vparts
#endif

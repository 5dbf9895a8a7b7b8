// Partitioning and combining of meshes, and mapping fields back.
#include "pbt_main.hpp"
#include "parts_check.hpp"
#include "domain.hpp"
using namespace vmesh; using namespace vparts; using namespace model; namespace bp = conduit::blueprint; namespace bm = conduit::blueprint::mesh;

static void selecting(Source &s, pbt::Ctx &c, bool promote)
{
    Set S; Opts o = family(s); o.promote = promote; if(promote) o.max_dom = 2; gen_set(s, S, o); Node opt; Conf cf; Sel want; size_t nsel = 0; bool fld = false; gen_conf(s, S, opt, cf);
    if(s.chance(2, 3)) { nsel = 1 + s.range(0, 2); std::set<DE> seen; Node &l = opt["selections"]; l.set(DataType::list()); size_t k = 0; for(size_t i = 0; i < nsel; i++) { Node tmp; Sel x = gen_selection(s, S, tmp, fld); bool ov = false; for(auto &e : x) if(seen.count(e)) ov = true; if(ov && k) continue; for(auto &e : x) seen.insert(e); l.append().set(tmp[0]); want.insert(want.end(), x.begin(), x.end()); k++; } nsel = k; }
    else { want = whole(S); nsel = S.d.size(); }
    size_t target = nsel; if(s.coin()) { target = 1 + s.range(0, 5); if(s.chance(1, 8)) target = want.size() + s.range(0, 2); put(s, opt["target"], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID, target > 100 ? DataType::INT16_ID : DataType::INT8_ID}), VI(1, (int)target)), NULL); target = std::min(target, want.size()); }
    describe(c, S, opt); c.nontrivial(S.d.size() > 1 || nsel > 1 || target > 1); M before = model::read(S.n); Node out; if(s.coin()) out["old"] = 1;
    bm::partition(S.n, opt, out); auto r = check_parts(S, out, want, cf, "partition"); CHECK_EQ(r.size(), target, "number of domains"); CHECK_NODE(S.n, before, "the source"); S.A.check_gaps("partition");
}
PBT(select, 9000, 500000) { selecting(s, c, false); }
PBT(promote, 6000, 500000) { selecting(s, c, true); }
// selections that name elements more than once choose the named elements and no others
PBT(repeated, 4000, 300000)
{
    Set S; Opts o = family(s); gen_set(s, S, o); Node opt; Conf cf; gen_conf(s, S, opt, cf); cf.mapping = true; cf.as_set = true; if(opt.has_child("mapping")) opt["mapping"] = 1; Sel want; std::set<size_t> used; size_t ns = s.range(1, 2); bool dup = false;
    for(size_t k = 0; k < ns; k++)
    {
        size_t w = s.range(0, (int64_t)S.d.size() - 1); if(!used.insert(w).second) continue; const Dom &d = S.d[w]; int ne = d.m.nel(); Node &n = opt["selections"].append(); n["domain_id"] = (int64)d.id; if(s.coin()) n["topology"] = "topo"; VI e, hit(ne, 0); bool rg = s.coin();
        // as many names as there are elements, often
        int goal = s.coin() ? ne : (int)s.range(1, 2 * ne), got = 0; while(got < goal) { int lo = (int)s.range(0, ne - 1), hi = rg ? lo + (int)s.range(0, std::min(goal - got - 1, ne - 1 - lo)) : lo; e.push_back(lo); if(rg) e.push_back(hi); got += hi - lo + 1; for(int i = lo; i <= hi; i++) { if(hit[i]++) dup = true; want.push_back(DE(d.id, i)); } }
        n["type"] = rg ? "ranges" : "explicit"; put(s, n[rg ? "ranges" : "elements"], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID}), e), NULL);
    }
    if(s.chance(1, 3)) opt["target"] = (int32)s.range(1, 4);
    describe(c, S, opt); c.nontrivial(dup); M before = model::read(S.n); Node out; bm::partition(S.n, opt, out); check_parts(S, out, want, cf, "partition with repeats"); CHECK_NODE(S.n, before, "the source"); S.A.check_gaps("partition with repeats");
}
// field selections number the domains
PBT(by_field, 6000, 300000)
{
    Set S; Opts o = family(s); gen_set(s, S, o); Node opt; Conf cf; gen_conf(s, S, opt, cf); cf.mapping = true; if(opt.has_child("mapping")) opt["mapping"] = 1; bool one = s.chance(1, 3); size_t w = s.range(0, (int64_t)S.d.size() - 1); int nv = (int)s.range(1, 4);
    std::map<DE, int> dest; Sel want; int t = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID}); static const int VALS[6] = {0, 1, 2, 3, 7, 12};
    std::vector<Node *> doms = bm::domains(S.n); for(size_t i = 0; i < S.d.size(); i++) { Fld f; f.name = "part"; f.vertex = false; f.id = t; std::vector<double> v; for(int e = 0; e < S.d[i].m.nel(); e++) { int x = VALS[s.range(0, nv)]; v.push_back(x); if(!one || i == w) { dest[DE(S.d[i].id, e)] = x; want.push_back(DE(S.d[i].id, e)); } } f.v.push_back(v); S.d[i].f.push_back(f); Node &q = (*doms[i])["fields/part"]; q["association"] = "element"; q["topology"] = "topo"; put(s, q["values"], num(t, v), &S.A); }
    Node &n = opt["selections"].append(); n["type"] = "field"; n["field"] = "part"; if(one) n["domain_id"] = (int64)S.d[w].id; else n["domain_id"] = "any"; if(s.coin()) n["topology"] = "topo";
    describe(c, S, opt); std::set<int> vals; for(auto &x : dest) vals.insert(x.second); c.nontrivial(vals.size() > 1); M before = model::read(S.n); Node out; bm::partition(S.n, opt, out);
    auto r = check_parts(S, out, want, cf, "partition by field"); std::set<int> ids; for(auto &d : r) { ids.insert((int)d.first); for(auto &e : d.second) CHECK_EQ(dest[e], (int)d.first, "domain of " << e.first << "/" << e.second); } CHECK(ids == vals, "domain ids are the field values"); CHECK_NODE(S.n, before, "the source"); S.A.check_gaps("partition by field");
}
// updated fields return to where they came from
PBT(map_back, 6000, 300000)
{
    Set S; Opts o = family(s); gen_set(s, S, o); Node opt; Conf cf; Sel want; bool fld = false;
    if(s.chance(1, 6)) { cf.eo = "my elems"; opt["original_element_ids"] = cf.eo; } if(s.chance(1, 6)) { cf.vo = "vv"; opt["original_vertex_ids"] = cf.vo; }
    if(s.chance(1, 2)) { std::set<DE> seen; Node &l = opt["selections"]; size_t k = 0; for(int i = 0; i < 2; i++) { Node tmp; Sel x = gen_selection(s, S, tmp, fld); bool ov = false; for(auto &e : x) if(seen.count(e)) ov = true; if(ov && k) continue; for(auto &e : x) seen.insert(e); l.append().set(tmp[0]); want.insert(want.end(), x.begin(), x.end()); k++; } } else want = whole(S);
    if(s.chance(2, 3)) opt["target"] = (int32)(1 + s.range(0, 4));
    Node out; bm::partition(S.n, opt, out); check_parts(S, out, want, cf, "partition"); std::vector<Node *> parts = bm::domains(out), doms = bm::domains(S.n); bool gv = !S.d[0].gv.empty(); std::map<int64_t, size_t> by; for(size_t i = 0; i < S.d.size(); i++) by[S.d[i].id] = i;
    // fields to map back: existing ones and a new one of each kind
    struct F { std::string n; bool v, fresh; std::vector<std::string> comps; }; std::vector<F> fs; for(auto &f : S.d[0].f) if((!f.vertex || gv) && s.chance(2, 3)) fs.push_back({f.name, f.vertex, false, f.comps}); if(s.coin() || fs.empty()) fs.push_back({"new e", false, true, s.coin() ? std::vector<std::string>{"p", "q"} : std::vector<std::string>()}); if(gv && s.coin()) fs.push_back({"new v", true, true, {}});
    int newt = s.pick<int>({0, 0, DataType::FLOAT64_ID, DataType::INT64_ID, DataType::INT32_ID});
    auto value = [](bool v, int64_t d, int i, size_t c) { return v ? 30000.0 + i + 200 * c : 40000.0 + 500 * d + i + 200 * c; };     // vertices: by global id
    std::vector<std::map<int, char> > hit_e(S.d.size()), hit_v(S.d.size());
    for(auto *pp : parts)
    {
        Node &n = *pp; VI ed = ivals(n["fields"][cf.eo]["values/domains"]), ei = ivals(n["fields"][cf.eo]["values/ids"]), vd = ivals(n["fields"][cf.vo]["values/domains"]), vi = ivals(n["fields"][cf.vo]["values/ids"]); std::set<int> from(ed.begin(), ed.end()), gids; if(gv) for(size_t i = 0; i < vi.size(); i++) gids.insert(S.d[by[vd[i]]].gv[vi[i]]);
        for(size_t i = 0; i < ei.size(); i++) hit_e[by[ed[i]]][ei[i]] = 1; if(gv) for(int d : from) for(size_t i = 0; i < S.d[by[d]].gv.size(); i++) if(gids.count(S.d[by[d]].gv[i])) hit_v[by[d]][(int)i] = 1;
        for(auto &f : fs) { Node &q = n["fields"][f.n]; int t = newt ? newt : f.fresh ? (int)DataType::FLOAT32_ID : (f.comps.empty() ? q["values"] : q["values"][0]).dtype().id(); q["association"] = f.v ? "vertex" : "element"; q["topology"] = "topo"; q["values"].reset(); for(size_t k = 0; k < std::max<size_t>(1, f.comps.size()); k++) { std::vector<double> w; if(f.v) for(size_t i = 0; i < vi.size(); i++) w.push_back(value(true, 0, S.d[by[vd[i]]].gv[vi[i]], k)); else for(size_t i = 0; i < ei.size(); i++) w.push_back(value(false, ed[i], ei[i], k)); put(s, f.comps.empty() ? q["values"] : q["values"][f.comps[k]], num(t, w), &S.A); } }
    }
    for(auto &f : fs) opt["fields"].append() = f.n;
    describe(c, S, opt); c.nontrivial(parts.size() > 1 || S.d.size() > 1); M mo = model::read(out); std::vector<M> before; for(auto *d : doms) before.push_back(model::read(*d)); std::map<std::pair<size_t, std::string>, const void *> ptr;
    for(size_t i = 0; i < doms.size(); i++) for(auto &f : fs) if(!f.fresh) { const Node &v = (*doms[i])["fields"][f.n]["values"]; ptr[std::make_pair(i, f.n)] = f.comps.empty() ? v.element_ptr(0) : v[0].element_ptr(0); }
    bm::partition_map_back(out, opt, S.n);
    for(size_t i = 0; i < doms.size(); i++)
    {
        const Node &n = *doms[i]; const Dom &d = S.d[i]; bool any = !hit_e[i].empty();
        for(auto &f : fs)
        {
            if(f.fresh && !any) continue; CHECK(n["fields"].has_child(f.n), "mapped field " << f.n); const Node &q = n["fields"][f.n]; CHECK(q["association"].as_string() == (f.v ? "vertex" : "element") && q["topology"].as_string() == "topo", "association of " << f.n); auto &hit = f.v ? hit_v[i] : hit_e[i]; size_t len = f.v ? d.m.npts() : d.m.nel();
            for(size_t k = 0; k < std::max<size_t>(1, f.comps.size()); k++) { std::vector<double> v = dvals(f.comps.empty() ? q["values"] : q["values"][f.comps[k]]); CHECK_EQ(v.size(), len, "length of " << f.n); const Fld *old = NULL; for(auto &x : d.f) if(x.name == f.n) old = &x; for(size_t e = 0; e < len; e++) { if(hit.count((int)e)) CHECK_EQ(v[e], value(f.v, d.id, f.v ? d.gv[e] : (int)e, k), "mapped back " << f.n << " of " << d.id << "/" << e); else if(old) CHECK_EQ(v[e], old->v[k][e], "untouched " << f.n << " of " << d.id << "/" << e); } }
            if(!f.fresh) { const Node &v = q["values"]; CHECK((f.comps.empty() ? v.element_ptr(0) : v[0].element_ptr(0)) == ptr[std::make_pair(i, f.n)], "values are written in place: " << f.n); }
        }
        Node cp; cp.set(n); Node ref; for(auto &f : fs) if(cp.has_path("fields") && cp["fields"].has_child(f.n)) cp["fields"].remove(f.n); M got = model::read(cp); Node old; model::build_plain(old, before[i]); for(auto &f : fs) if(old.has_child("fields") && old["fields"].has_child(f.n)) old["fields"].remove(f.n); if(!old.has_child("fields") && cp.has_child("fields") && cp["fields"].number_of_children() == 0) cp.remove("fields"); Node info; CHECK(!old.diff(cp, info, 0.0), "other parts of the original mesh changed: " << info.to_json().substr(0, 400));
    }
    CHECK_NODE(out, mo, "the parts");
}
// volume fractions per element and material name of any flavour of matset
typedef std::vector<std::map<std::string, double> > VF;
static VF read_matset(const Node &m, size_t nel)
{
    VF r(nel); const Node &v = m["volume_fractions"]; auto add = [&](int e, const std::string &n, double x) { CHECK(e >= 0 && e < (int)nel, "element " << e << " of a material"); if(x != 0) r[e][n] += x; };
    std::map<int, std::string> nm; if(m.has_child("material_map")) for(index_t i = 0; i < m["material_map"].number_of_children(); i++) nm[m["material_map"][i].to_int()] = m["material_map"][i].name();
    if(v.dtype().is_object())
    {
        for(index_t i = 0; i < v.number_of_children(); i++) { std::vector<double> x; const Node &q = v[i]; if(q.dtype().is_object()) { bp::o2mrelation::O2MIndex ix(q); std::vector<double> d = dvals(q["values"]); for(index_t e = 0; e < ix.size(); e++) x.push_back(d[ix.index(e, 0)]); } else x = dvals(q); if(m.has_child("element_ids")) { VI e = ivals(m["element_ids"][q.name()]); CHECK_EQ(e.size(), x.size(), "element ids of " << q.name()); for(size_t k = 0; k < e.size(); k++) add(e[k], q.name(), x[k]); } else { CHECK_EQ(x.size(), nel, "volume fractions of " << q.name()); for(size_t k = 0; k < nel; k++) add((int)k, q.name(), x[k]); } }
        return r;
    }
    std::vector<double> x = dvals(v); VI id = ivals(m["material_ids"]); CHECK_EQ(id.size(), x.size(), "material ids"); auto N = [&](int i) { CHECK(nm.count(i), "material id " << i << " is in the map"); return nm[i]; };
    if(m.has_child("element_ids")) { VI e = ivals(m["element_ids"]); CHECK_EQ(e.size(), x.size(), "element ids"); for(size_t k = 0; k < e.size(); k++) add(e[k], N(id[k]), x[k]); return r; }
    bp::o2mrelation::O2MIndex ix(m); CHECK_EQ((size_t)ix.size(), nel, "elements of the matset"); for(size_t e = 0; e < nel; e++) for(index_t k = 0; k < ix.size((index_t)e); k++) { index_t at = ix.index((index_t)e, k); CHECK(at >= 0 && at < (index_t)x.size(), "entry " << at); add((int)e, N(id[at]), x[at]); }
    return r;
}
PBT(materials, 6000, 300000)
{
    Set S; Opts o = family(s); gen_set(s, S, o); Node opt; Sel want; bool fld = false; std::vector<Node *> doms = bm::domains(S.n); int fl = (int)s.range(0, 3), ft = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID}), it = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}); std::map<DE, std::map<std::string, double> > vf; VI ids; bool fm = s.coin(); int nm = 1 + s.len(4); (void)nm;
    Mats base = gen_mats(s, 1); bool same_fl = s.chance(3, 4);
    for(size_t i = 0; i < doms.size(); i++) { Mats m = base; m.vf.clear(); int k = (int)m.names.size(); for(int e = 0; e < S.d[i].m.nel(); e++) { std::map<int, double> f; int a = (int)s.range(0, k - 1), b = (int)s.range(0, k - 1); if(a == b || s.coin()) f[a] = 1; else { int v = (int)s.range(1, 15); f[a] = v / 16.0; f[b] = 1 - v / 16.0; } m.vf.push_back(f); for(auto &x : f) vf[DE(S.d[i].id, e)][m.names[x.first]] = x.second; } put_matset(s, (*doms[i])["matsets/mats"], m, same_fl ? fl : (int)s.range(0, 3), "topo", &S.A, it, ft, fm || !same_fl); }
    if(s.chance(1, 2)) { std::set<DE> seen; Node &l = opt["selections"]; size_t k = 0; for(int i = 0; i < 2; i++) { Node tmp; Sel x = gen_selection(s, S, tmp, fld); bool ov = false; for(auto &e : x) if(seen.count(e)) ov = true; if(ov && k) continue; for(auto &e : x) seen.insert(e); l.append().set(tmp[0]); want.insert(want.end(), x.begin(), x.end()); k++; } } else want = whole(S);
    if(s.chance(2, 3)) opt["target"] = (int32)(1 + s.range(0, 4)); describe(c, S, opt); if(c.want_desc) c.desc << (*doms[0])["matsets"].to_json(); c.nontrivial(base.names.size() > 1); M before = model::read(S.n); Conf cf; Node out; bm::partition(S.n, opt, out); std::vector<Node *> parts = bm::domains(out);
    // known finding: a part cut out of a multi-buffer material-dominant matset has empty nodes (not empty arrays) for the materials that none of its elements has
    for(auto *p : parts) if(p->has_path("matsets/mats/element_ids") && (*p)["matsets/mats/element_ids"].dtype().is_object()) { Node &ms = (*p)["matsets/mats"]; for(index_t i = 0; i < ms["volume_fractions"].number_of_children(); i++) { std::string nm = ms["volume_fractions"].child_names()[i]; if(ms["volume_fractions"][i].dtype().is_empty() && ms["element_ids"].has_child(nm) && ms["element_ids"][nm].dtype().is_empty()) { ms["volume_fractions"][i].set(DataType::float64(0)); ms["element_ids"][nm].set(DataType::int64(0)); } } }
    auto r = check_parts(S, out, want, cf, "partition");
    for(size_t p = 0; p < parts.size(); p++) { const Node &n = *parts[p]; CHECK(n.has_path("matsets/mats"), "the part has the matset"); CHECK_EQ(n["matsets/mats/topology"].as_string(), std::string("topo"), "topology of the matset"); VF g = read_matset(n["matsets/mats"], r[p].second.size()); for(size_t e = 0; e < g.size(); e++) { auto &w = vf[r[p].second[e]]; if(g[e] != w) { std::ostringstream t; for(auto &x : g[e]) t << " " << x.first << " " << x.second; t << " instead of"; for(auto &x : w) t << " " << x.first << " " << x.second; CHECK(false, "materials of the element from " << r[p].second[e].first << "/" << r[p].second[e].second << ":" << t.str() << " in " << n["matsets/mats"].to_json().substr(0, 800)); } } }
    CHECK_NODE(S.n, before, "the source"); S.A.check_gaps("materials");
}
PBT_MAIN()

// C26: the parallel mesh functions give what the serial ones give on all domains together.
#include "pbt_main.hpp"
#include "parts_check.hpp"
#include "domain.hpp"
#include <mpi.h>
#include "conduit_blueprint.hpp"
#include "conduit_blueprint_mpi_mesh.hpp"
using namespace vmesh; using namespace vparts; using namespace model; using namespace conduit; namespace pm = conduit::blueprint::mpi::mesh;

static void par(Source &s, int nr, std::function<void(int)> f) { try { fm::run(nr, [&s](uint64_t x) { return s.draw(x); }, f); } catch(fm::Failure &e) { throw pbt::Fail(e.what()); } }
// runs f on all ranks; tells how many of them raised a conduit error
static int par_err(Source &s, int nr, std::function<void(int)> f, std::string &msg) { std::vector<char> bad(nr, 0); par(s, nr, [&](int r) { try { f(r); } catch(conduit::Error &e) { bad[r] = 1; msg = e.message(); } }); int k = 0; for(char b : bad) k += b; return k; }
// the local mesh of a rank, from its domains
static void as_mesh(Source &s, const std::vector<const Node *> &d, Node &m)
{
    if(d.empty()) { int k = (int)s.range(0, 2); if(k == 1) m.set(DataType::object()); if(k == 2) m.set(DataType::list()); return; }
    if(d.size() == 1 && s.coin()) { m.set_external(*d[0]); return; } bool list = s.coin(); for(size_t i = 0; i < d.size(); i++) { if(list) m.append().set_external(*d[i]); else m["d" + std::to_string(i)].set_external(*d[i]); }
}
struct World1 { int nr; std::list<Node> dom; std::vector<std::vector<const Node *> > own; std::vector<const Node *> order; std::vector<int> rank_of; std::vector<Node> mesh; Node all; };

// verify, counts, index, delegate and id maps
PBT(collective, 4000, 300000)
{
    Arena A; World1 w; w.nr = 1 + (int)s.range(0, 3); int nd = s.len(5); bool ids = s.coin(), spoil = s.chance(1, 3); DomOpts d; d.g.max_ne = 2; w.own.resize(w.nr); w.mesh.resize(w.nr); std::vector<int> idv; int at = 0; for(int i = 0; i < nd; i++) { at += s.chance(1, 3) ? (int)s.range(0, 4) : 0; idv.push_back(at++); } for(size_t i = idv.size(); i > 1; i--) std::swap(idv[i - 1], idv[s.range(0, i - 1)]);
    for(int i = 0; i < nd; i++) { w.dom.emplace_back(); Node &n = w.dom.back(); gen_domain(s, n, &A, d); if(n.has_path("state/domain_id")) n["state"].remove("domain_id"); if(n.has_child("state") && n["state"].number_of_children() == 0) n.remove("state"); if(ids) { if(s.coin()) n["state/domain_id"] = (int32)idv[i]; else n["state/domain_id"] = (int64)idv[i]; } w.own[s.range(0, w.nr - 1)].push_back(&n); }
    for(int r = 0; r < w.nr; r++) { as_mesh(s, w.own[r], w.mesh[r]); for(auto *p : w.own[r]) { w.order.push_back(p); w.rank_of.push_back(r); w.all.append().set_external(*p); } }
    if(nd == 0) w.all.set(DataType::list()); c.nontrivial(w.nr > 1 && nd > 1); if(c.want_desc) for(int r = 0; r < w.nr; r++) c.desc << "rank " << r << ":\n" << w.mesh[r].to_yaml();
    std::vector<M> before; for(auto &m : w.mesh) before.push_back(read(m));
    int what = (int)s.range(0, 4);
    if(what == 0)
    {   // verify: true exactly when every rank's mesh is a mesh
        std::vector<Node> in(w.nr), info(w.nr); std::vector<char> got(w.nr); bool want = true; for(int r = 0; r < w.nr; r++) { in[r].set(w.mesh[r]); if(spoil && s.chance(1, w.nr)) { if(w.own[r].empty()) in[r].set(5); else { Node &q = in[r].has_child("coordsets") ? in[r] : in[r].child(s.range(0, in[r].number_of_children() - 1)); q.remove(s.pick<std::string>({"coordsets", "topologies"})); } } Node i2; want = want && bm::verify(in[r], i2); }
        par(s, w.nr, [&](int r) { got[r] = pm::verify(in[r], info[r], MPI_COMM_WORLD); }); for(int r = 0; r < w.nr; r++) { CHECK_EQ((bool)got[r], want, "verify on rank " << r); Node i2; bm::verify(in[r], i2); Node i3; CHECK(!i2.diff(info[r], i3), "info of rank " << r); }
    }
    if(what == 1)
    {
        std::vector<index_t> got(w.nr, -7); par(s, w.nr, [&](int r) { got[r] = pm::number_of_domains(w.mesh[r], MPI_COMM_WORLD); }); for(int r = 0; r < w.nr; r++) CHECK_EQ(got[r], (index_t)nd, "number of domains on rank " << r);
    }
    if(what == 2)
    {
        std::vector<Node> got(w.nr); Node want; std::string ref = s.pick<std::string>({"", "mesh"}); for(auto &g : got) if(s.coin()) g["old"] = 1; if(nd) bm::generate_index(w.all, ref, nd, want);
        par(s, w.nr, [&](int r) { pm::generate_index(w.mesh[r], ref, got[r], MPI_COMM_WORLD); }); for(int r = 0; r < w.nr; r++) { Node info; if(nd == 0) { CHECK(got[r].number_of_children() == 0, "an index without domains"); continue; } CHECK(!want.diff(got[r], info, 0.0, true), "index on rank " << r << ":\n" << info.to_yaml().substr(0, 3000)); CHECK(!got[r].diff(want, info, 0.0, true), "index on rank " << r << ":\n" << info.to_yaml().substr(0, 3000)); }
    }
    if(what == 3 && ids)
    {
        std::vector<Node> got(w.nr); for(auto &g : got) if(s.coin()) g["old"] = 1; par(s, w.nr, [&](int r) { pm::generate_domain_to_rank_map(w.mesh[r], got[r], MPI_COMM_WORLD); }); std::vector<int> want; for(size_t i = 0; i < w.order.size(); i++) { int id = (*w.order[i])["state/domain_id"].to_int(); if((int)want.size() <= id) want.resize(id + 1, -1); want[id] = w.rank_of[i]; }
        for(int r = 0; r < w.nr; r++) { if(want.empty()) { CHECK(got[r].dtype().number_of_elements() == 0 && got[r].number_of_children() == 0, "a map without domains"); continue; } CHECK(got[r].dtype().is_integer(), "the map is a leaf of integers: " << got[r].schema().to_json()); VI v = ivals(got[r]); CHECK(v == want, "map on rank " << r << ": " << got[r].to_json()); }
    }
    if(what == 4)
    {
        std::vector<Node> got(w.nr); if(nd == 0) for(auto &g : got) if(s.coin()) g["old"] = 1; par(s, w.nr, [&](int r) { pm::find_delegate_domain(w.mesh[r], got[r], MPI_COMM_WORLD); }); for(int r = 0; r < w.nr; r++) if(nd) { M m = read(*w.order[0]); CHECK_NODE(got[r], m, "delegate domain on rank " << r); }
        // new ids, domain by domain
        std::vector<Node> in(w.nr); for(int r = 0; r < w.nr; r++) { bool list = s.coin(); if(w.own[r].empty() && s.coin()) in[r].set(DataType::object()); for(size_t i = 0; i < w.own[r].size(); i++) if(list) in[r].append().set(*w.own[r][i]); else in[r]["d" + std::to_string(i)].set(*w.own[r][i]); }
        par(s, w.nr, [&](int r) { pm::generate_domain_ids(in[r], MPI_COMM_WORLD); }); int id = 0; for(int r = 0; r < w.nr; r++) for(size_t i = 0; i < w.own[r].size(); i++) { Node &q = in[r].child(i); CHECK_EQ(q["state/domain_id"].to_int(), id, "domain " << i << " of rank " << r); id++; Node a, b, info; a.set(q); b.set(*w.own[r][i]); a["state"].remove("domain_id"); if(b.has_path("state/domain_id")) b["state"].remove("domain_id"); if(a["state"].number_of_children() == 0) a.remove("state"); if(b.has_child("state") && b["state"].number_of_children() == 0) b.remove("state"); CHECK(!a.diff(b, info, 0.0) && !b.diff(a, info, 0.0), "domain changed by new ids: " << info.to_yaml()); }
    }
    for(int r = 0; r < w.nr; r++) CHECK_NODE(w.mesh[r], before[r], "the mesh of rank " << r);
}
// copies of domains go to the ranks listed for them
PBT(distribute, 3000, 300000)
{
    Arena A; World1 w; w.nr = 1 + (int)s.range(0, 3); int nd = 1 + s.len(4); bool ids = s.chance(3, 4); DomOpts d; d.g.max_ne = 2; if(!ids) nd = std::min(nd, w.nr); w.own.resize(w.nr); w.mesh.resize(w.nr); std::map<int, std::pair<const Node *, int> > by;
    for(int i = 0; i < nd; i++) { w.dom.emplace_back(); Node &n = w.dom.back(); gen_domain(s, n, &A, d); if(n.has_path("adjsets/adj/groups") && n["adjsets/adj/groups"].number_of_children() == 0) n.remove("adjsets"); /* sent as an empty node */ if(n.has_path("state/domain_id")) n["state"].remove("domain_id"); if(n.has_child("state") && n["state"].number_of_children() == 0) n.remove("state"); int r = ids ? (int)s.range(0, w.nr - 1) : i, id = ids ? i : r; if(ids) n["state/domain_id"] = (int64)id; w.own[r].push_back(&n); by[id] = std::make_pair(&n, r); }
    for(int r = 0; r < w.nr; r++) as_mesh(s, w.own[r], w.mesh[r]);
    // the map: for each domain the ranks that get it
    std::vector<VI> dest(nd); VI vals, sz, off; for(int i = 0; i < nd; i++) { int k = (int)s.weighted({1, 6, 3, 1}); for(int q = 0; q < k; q++) { int r = (int)s.range(0, w.nr - 1); if(std::find(dest[i].begin(), dest[i].end(), r) == dest[i].end()) dest[i].push_back(r); } }
    int form = (int)s.range(0, 2); bool ones = true; for(auto &v : dest) if(v.size() != 1) ones = false; if(form == 2 && !ones) form = s.coin() ? 0 : 1; VI at(nd); for(int i = 0; i < nd; i++) at[i] = i; if(form == 0) for(int i = nd; i > 1; i--) std::swap(at[i - 1], at[s.range(0, i - 1)]); off.resize(nd); for(int i : at) { if(form == 0 && s.chance(1, 5)) vals.push_back(99); off[i] = (int)vals.size(); vals.insert(vals.end(), dest[i].begin(), dest[i].end()); } for(auto &v : dest) sz.push_back((int)v.size());
    Node opt; if(vals.empty()) vals.push_back(0); int it = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}); put(s, opt["domain_map/values"], num(it, vals), &A); if(form < 2) put(s, opt["domain_map/sizes"], num(it, sz), &A); if(form == 0) put(s, opt["domain_map/offsets"], num(it, off), &A);
    std::vector<Node> out(w.nr); for(auto &o : out) if(s.coin()) o["old"] = 1; c.nontrivial(w.nr > 1 && nd > 1); if(c.want_desc) { c.desc << opt.to_json(); for(int r = 0; r < w.nr; r++) c.desc << "\nrank " << r << ":\n" << w.mesh[r].to_yaml(); } std::vector<M> before; for(auto &m : w.mesh) before.push_back(read(m));
    M mo = read(opt); par(s, w.nr, [&](int r) { Node o2; o2.set_external(opt); pm::distribute(w.mesh[r], o2, out[r], MPI_COMM_WORLD); }); CHECK_NODE(opt, mo, "the options");
    for(int r = 0; r < w.nr; r++) { std::vector<const Node *> want; for(int i = 0; i < nd; i++) for(int q : dest[i]) if(q == r) want.push_back(by[i].first); CHECK_EQ(out[r].number_of_children(), (index_t)want.size(), "domains on rank " << r); for(size_t i = 0; i < want.size(); i++) { M m = read(*want[i]); CHECK_NODE(out[r].child(i), m, "domain " << i << " on rank " << r); } CHECK_NODE(w.mesh[r], before[r], "the mesh of rank " << r); }
    A.check_gaps("distribute");
}
static Opts family() { Opts o; o.g.cyl = false; o.g.topos = {"uniform", "rectilinear", "structured", "unstructured", "unstructured"}; o.max_dom = 4; return o; }
// gives the domains to ranks; without ids the domains are renumbered in rank order
static void deal(Source &s, Set &S, int nr, std::vector<Node> &mesh, std::vector<std::vector<size_t> > &own)
{
    std::vector<Node *> doms = bm::domains(S.n); own.assign(nr, std::vector<size_t>()); mesh.resize(nr); for(size_t i = 0; i < S.d.size(); i++) own[s.range(0, nr - 1)].push_back(i); for(int r = 0; r < nr; r++) { std::vector<const Node *> l; for(size_t i : own[r]) l.push_back(doms[i]); as_mesh(s, l, mesh[r]); }
    if(!doms[0]->has_path("state/domain_id")) { int64_t k = 0; for(auto &o : own) for(size_t i : o) S.d[i].id = k++; }
}
static void gather(const std::vector<Node> &out, Node &all) { all.set(DataType::list()); for(auto &o : out) for(auto *p : bm::domains(o)) all.append().set_external(*p); }

PBT(partition, 3500, 300000)
{
    Set S; gen_set(s, S, family()); int nr = 1 + (int)s.range(0, 3); std::vector<Node> mesh, out(nr); std::vector<std::vector<size_t> > own; deal(s, S, nr, mesh, own); Node opt; Conf cf; Sel want; size_t nsel = 0; bool fld = false; gen_conf(s, S, opt, cf); std::map<DE, int> dest; bool by_field = s.chance(1, 4); std::set<int> vals; bool ranks_given = false; VI dr;
    if(by_field)
    {
        if(opt.has_child("mapping")) opt.remove("mapping"); cf.mapping = true; static const int VALS[6] = {0, 1, 2, 3, 7, 12}; std::vector<Node *> doms = bm::domains(S.n); int nv = (int)s.range(1, 4);
        for(size_t i = 0; i < S.d.size(); i++) { Fld f; f.name = "part"; f.vertex = false; f.id = DataType::INT32_ID; std::vector<double> v; for(int e = 0; e < S.d[i].m.nel(); e++) { int x = VALS[s.range(0, nv)]; v.push_back(x); vals.insert(x); dest[DE(S.d[i].id, e)] = x; want.push_back(DE(S.d[i].id, e)); } f.v.push_back(v); S.d[i].f.push_back(f); Node &q = (*doms[i])["fields/part"]; q["association"] = "element"; q["topology"] = "topo"; q["values"].set(std::vector<int>(v.begin(), v.end())); }
        for(int r = 0; r < nr; r++) { mesh[r].reset(); std::vector<const Node *> l; for(size_t i : own[r]) l.push_back(doms[i]); as_mesh(s, l, mesh[r]); }
        Node &n = opt["selections"].append(); n["type"] = "field"; n["field"] = "part"; n["domain_id"] = "any"; if(s.coin()) n["topology"] = "topo"; if(s.coin()) { ranks_given = true; int k = 1 + (int)s.range(0, 4); for(int i = 0; i < k; i++) dr.push_back((int)s.range(0, nr)); put(s, n["destination_ranks"], num(s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}), dr), NULL); }
    }
    else if(s.chance(1, 2)) { nsel = 1 + s.range(0, 2); std::set<DE> seen; Node &l = opt["selections"]; l.set(DataType::list()); size_t k = 0; for(size_t i = 0; i < nsel; i++) { Node tmp; Sel x = gen_selection(s, S, tmp, fld); bool ov = false; for(auto &e : x) if(seen.count(e)) ov = true; if(ov && k) continue; for(auto &e : x) seen.insert(e); l.append().set(tmp[0]); want.insert(want.end(), x.begin(), x.end()); k++; } nsel = k; }
    else { want = whole(S); nsel = S.d.size(); }
    size_t target = nsel; if(!by_field && s.coin()) { target = 1 + s.range(0, 5); if(s.chance(1, 8)) target = want.size() + s.range(0, 2); opt["target"] = (int32)target; target = std::min(target, want.size()); }
    describe(c, S, opt); if(c.want_desc) { c.desc << "; " << nr << " ranks: "; for(auto &o : own) { for(size_t i : o) c.desc << S.d[i].id << " "; c.desc << "| "; } } c.nontrivial(nr > 1 && (S.d.size() > 1 || target > 1)); std::vector<M> before; for(auto &m : mesh) before.push_back(read(m));
    for(auto &o : out) if(s.coin()) o["old"] = 1; par(s, nr, [&](int r) { Node o2; o2.set_external(opt); pm::partition(mesh[r], o2, out[r], MPI_COMM_WORLD); });
    Node all; gather(out, all); auto r = check_parts(S, all, want, cf, "partition"); for(int k = 0; k < nr; k++) CHECK_NODE(mesh[k], before[k], "the source on rank " << k); S.A.check_gaps("partition");
    if(by_field) { std::set<int> ids; for(auto &d : r) { ids.insert((int)d.first); for(auto &e : d.second) CHECK_EQ(dest[e], (int)d.first, "domain of " << e.first << "/" << e.second); } CHECK(ids == vals, "domain ids are the field values"); for(int k = 0; k < nr; k++) for(auto *p : bm::domains(out[k])) { CHECK_EQ(ranks_given ? (dr[(*p)["state/domain_id"].to_int() % dr.size()]) % nr : k, k, "rank of the domain"); } }
    else CHECK_EQ(r.size(), target, "number of domains");
}
// fields of the parts return to the ranks of their domains
PBT(map_back, 3000, 300000)
{
    Set S; gen_set(s, S, family()); int nr = 1 + (int)s.range(0, 3); std::vector<Node> mesh, out(nr); std::vector<std::vector<size_t> > own; deal(s, S, nr, mesh, own); Node opt; Conf cf; Sel want; bool fld = false;
    if(s.chance(1, 6)) { cf.eo = "my elems"; opt["original_element_ids"] = cf.eo; } if(s.chance(1, 6)) { cf.vo = "vv"; opt["original_vertex_ids"] = cf.vo; }
    if(s.chance(1, 2)) { std::set<DE> seen; Node &l = opt["selections"]; size_t k = 0; for(int i = 0; i < 2; i++) { Node tmp; Sel x = gen_selection(s, S, tmp, fld); bool ov = false; for(auto &e : x) if(seen.count(e)) ov = true; if(ov && k) continue; for(auto &e : x) seen.insert(e); l.append().set(tmp[0]); want.insert(want.end(), x.begin(), x.end()); k++; } } else want = whole(S);
    if(s.chance(2, 3)) opt["target"] = (int32)(1 + s.range(0, 4)); describe(c, S, opt); if(c.want_desc) { c.desc << "; " << nr << " ranks: "; for(auto &o : own) { for(size_t i : o) c.desc << S.d[i].id << " "; c.desc << "| "; } } c.nontrivial(nr > 1 && S.d.size() > 1);
    par(s, nr, [&](int r) { Node o2; o2.set_external(opt); pm::partition(mesh[r], o2, out[r], MPI_COMM_WORLD); }); { Node all; gather(out, all); check_parts(S, all, want, cf, "partition"); }
    bool gv = !S.d[0].gv.empty(); std::map<int64_t, size_t> by; for(size_t i = 0; i < S.d.size(); i++) by[S.d[i].id] = i; struct F { std::string n; bool v, fresh; std::vector<std::string> comps; }; std::vector<F> fs; for(auto &f : S.d[0].f) if((!f.vertex || gv) && s.chance(2, 3)) fs.push_back({f.name, f.vertex, false, f.comps}); if(s.coin() || fs.empty()) fs.push_back({"new e", false, true, s.coin() ? std::vector<std::string>{"p", "q"} : std::vector<std::string>()}); if(gv && s.coin()) fs.push_back({"new v", true, true, {}});
    auto value = [](bool v, int64_t d, int i, size_t k) { return v ? 30000.0 + i + 200 * k : 40000.0 + 500 * d + i + 200 * k; }; std::vector<std::map<int, char> > hit_e(S.d.size()), hit_v(S.d.size());
    for(auto &o : out) for(auto *pp : bm::domains(o))
    {
        Node &n = *pp; VI ed = ivals(n["fields"][cf.eo]["values/domains"]), ei = ivals(n["fields"][cf.eo]["values/ids"]), vd = ivals(n["fields"][cf.vo]["values/domains"]), vi = ivals(n["fields"][cf.vo]["values/ids"]); std::set<int> from(ed.begin(), ed.end()), gids; if(gv) for(size_t i = 0; i < vi.size(); i++) gids.insert(S.d[by[vd[i]]].gv[vi[i]]);
        for(size_t i = 0; i < ei.size(); i++) hit_e[by[ed[i]]][ei[i]] = 1; if(gv) for(int d : from) for(size_t i = 0; i < S.d[by[d]].gv.size(); i++) if(gids.count(S.d[by[d]].gv[i])) hit_v[by[d]][(int)i] = 1;
        for(auto &f : fs) { Node &q = n["fields"][f.n]; int t = f.fresh ? (int)DataType::FLOAT32_ID : (f.comps.empty() ? q["values"] : q["values"][0]).dtype().id(); q["association"] = f.v ? "vertex" : "element"; q["topology"] = "topo"; q["values"].reset(); for(size_t k = 0; k < std::max<size_t>(1, f.comps.size()); k++) { std::vector<double> w; if(f.v) for(size_t i = 0; i < vi.size(); i++) w.push_back(value(true, 0, S.d[by[vd[i]]].gv[vi[i]], k)); else for(size_t i = 0; i < ei.size(); i++) w.push_back(value(false, ed[i], ei[i], k)); put(s, f.comps.empty() ? q["values"] : q["values"][f.comps[k]], num(t, w), &S.A); } }
    }
    for(auto &f : fs) opt["fields"].append() = f.n; if(c.want_desc) c.desc << "\n" << opt["fields"].to_json();
    std::vector<Node *> doms = bm::domains(S.n);
    // the fields are written into the nodes given: use copies on the ranks
    std::vector<Node> tgt(nr); for(int r = 0; r < nr; r++) { bool list = s.coin(); for(size_t i : own[r]) { if(own[r].size() == 1 && !list) tgt[r].set(*doms[i]); else (list ? tgt[r].append() : tgt[r]["d" + std::to_string(i)]).set(*doms[i]); } if(own[r].empty()) tgt[r].set(DataType::list()); }
    par(s, nr, [&](int r) { Node o2; o2.set_external(opt); pm::partition_map_back(out[r], o2, tgt[r], MPI_COMM_WORLD); });
    for(int r = 0; r < nr; r++)
    {
        std::vector<Node *> td; if(!own[r].empty()) td = bm::domains(tgt[r]); CHECK_EQ(td.size(), own[r].size(), "domains on rank " << r);
        for(size_t k0 = 0; k0 < td.size(); k0++)
        {
            size_t i = own[r][k0]; const Node &n = *td[k0]; const Dom &d = S.d[i]; bool any = !hit_e[i].empty();
            for(auto &f : fs)
            {
                if(f.fresh && !any) continue; CHECK(n["fields"].has_child(f.n), "mapped field " << f.n << " of domain " << d.id); const Node &q = n["fields"][f.n]; CHECK(q["association"].as_string() == (f.v ? "vertex" : "element") && q["topology"].as_string() == "topo", "association of " << f.n); auto &hit = f.v ? hit_v[i] : hit_e[i]; size_t len = f.v ? d.m.npts() : d.m.nel();
                for(size_t k = 0; k < std::max<size_t>(1, f.comps.size()); k++) { std::vector<double> v = dvals(f.comps.empty() ? q["values"] : q["values"][f.comps[k]]); CHECK_EQ(v.size(), len, "length of " << f.n); const Fld *old = NULL; for(auto &x : d.f) if(x.name == f.n) old = &x; for(size_t e = 0; e < len; e++) { if(hit.count((int)e)) CHECK_EQ(v[e], value(f.v, d.id, f.v ? d.gv[e] : (int)e, k), "mapped back " << f.n << " of " << d.id << "/" << e); else if(old) CHECK_EQ(v[e], old->v[k][e], "untouched " << f.n << " of " << d.id << "/" << e); } }
            }
            Node cp, old, info; cp.set(n); old.set(*doms[i]); for(auto &f : fs) { if(cp.has_path("fields") && cp["fields"].has_child(f.n)) cp["fields"].remove(f.n); if(old.has_child("fields") && old["fields"].has_child(f.n)) old["fields"].remove(f.n); } if(!old.has_child("fields") && cp.has_child("fields") && cp["fields"].number_of_children() == 0) cp.remove("fields"); CHECK(!old.diff(cp, info, 0.0), "other parts of the original mesh changed: " << info.to_json().substr(0, 400));
        }
    }
}
PBT_MAIN()

// C29: Sidre files and Sidre mesh files read as the data store that was written.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_blueprint.hpp"
#include "conduit_blueprint.hpp"
#include <sys/stat.h>
using namespace model; using namespace conduit; using namespace vmesh;

template<class F> static bool thrown(F f) { try { f(); } catch(conduit::Error &) { return true; } return false; }
static const std::vector<int> T = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
static Node arr(Source &s, int id, int n) { Node w, r; std::vector<double> v; for(int i = 0; i < n; i++) v.push_back((double)s.range(0, 100)); w.set(v); Node z; if(!n) { r.set(DataType(id, 0)); return r; } w.to_data_type(id, r); return r; }
// a data store being written: the group tree, the buffers, the external data, and what readers should see
struct Store { Node sidre, exp; int nb = 0; std::vector<std::string> paths; int views = 0; };
static Node &at_path(Node &n, const std::string &p) { return p.empty() ? n : n[p]; }
static void view(Source &s, Store &S, Node &v, Node &e, const std::string &path, Node *given)
{
    S.views++; int k = given ? (given->dtype().is_string() ? 0 : (int)s.range(2, 4)) : (int)s.weighted({2, 2, 3, 2, 2, 1});
    if(k == 0) { std::string t; if(given) t = given->as_string(); else { int n = s.len(6); for(int i = 0; i < n; i++) t += (char)('a' + s.range(0, 25)); } v["state"] = "STRING"; v["value"] = t; e.set(t); return; }
    if(k == 1) { Node a = arr(s, s.pick(T), 1); v["state"] = "SCALAR"; v["value"] = a; e.set(a); return; }
    if(k == 5) { v["state"] = "EMPTY"; return; }
    Node a; if(given) a = *given; else a = arr(s, s.pick(T), s.len(6)); index_t n = a.dtype().number_of_elements(), sz = a.dtype().element_bytes(); Node c; a.compact_to(c); e.set(c);
    if(k == 4) { v["state"] = "EXTERNAL"; v["schema"] = c.dtype().to_json(); S.sidre["external"][path].set(c); return; }
    int nv = k == 3 && n ? 2 : 1, id = S.nb; v["state"] = "BUFFER"; v["is_applied"] = (int8)1;
    if(S.nb && !given && s.chance(1, 4)) // a view of a buffer in use
    {
        id = (int)s.range(0, S.nb - 1); Node &b = S.sidre["buffers"]["buffer_id_" + std::to_string(id)]["data"]; index_t bn = b.dtype().number_of_elements(), bs = b.dtype().element_bytes(), o = bn ? s.range(0, bn - 1) : 0, st = 1 + s.range(0, 2), m = bn ? s.range(0, (bn - o + st - 1) / st) : 0;
        DataType d(b.dtype().id(), m, o * bs, st * bs, bs, Endianness::DEFAULT_ID); if(s.chance(1, 3)) { int ti = s.pick(T); index_t ts = DataType::default_bytes(ti), cap = bn * bs / ts; d = DataType(ti, cap ? (s.coin() ? cap : s.range(0, cap)) : 0, 0, ts, ts, Endianness::DEFAULT_ID); } v["buffer_id"] = id; v["schema"] = d.to_json(); Node w; w.set_external(d, b.data_ptr()); e.reset(); w.compact_to(e); return;
    }
    S.nb++; index_t st = nv == 2 ? 1 + s.range(0, 2) : 1, off = nv == 2 ? s.range(0, 2) : 0, tail = nv == 2 ? s.range(0, 2) : 0, bn = n ? off + (n - 1) * st + 1 + tail : 0; Node b; b.set(DataType(a.dtype().id(), bn)); if(bn) memset(b.data_ptr(), 0x5a, (size_t)(bn * sz));
    for(index_t i = 0; i < n; i++) memcpy((char *)b.data_ptr() + (off + i * st) * sz, c.element_ptr(i), (size_t)sz);
    Node &q = S.sidre["buffers"]["buffer_id_" + std::to_string(id)]; q["id"] = id; q["schema"] = b.dtype().to_json(); q["data"] = b; v["buffer_id"] = id; v["schema"] = DataType(a.dtype().id(), n, off * sz, st * sz, sz, Endianness::DEFAULT_ID).to_json();
}
static void group(Source &s, Store &S, Node &g, Node &e, const std::string &path, int depth)
{
    static const std::vector<std::string> NM = {"a", "b", "mesh", "groups", "views", "x y", "state", "0", "a.b", "q", "value", "path"}; std::set<std::string> used; auto name = [&] { std::string n; do n = s.pick(NM); while(used.count(n)); used.insert(n); return n; };
    int ng = depth >= 3 ? 0 : (int)s.range(0, depth ? 2 : 3), nv = (int)s.range(depth && !ng ? 1 : 0, depth ? 3 : 2); if(!depth && s.coin()) nv = 0; if(!ng && !nv) nv = 1;
    for(int i = 0; i < ng; i++) { std::string n = name(), p = path.empty() ? n : path + "/" + n; S.paths.push_back(p); group(s, S, g["groups"][n], e[n], p, depth + 1); }
    for(int i = 0; i < nv; i++) { std::string n = name(), p = path.empty() ? n : path + "/" + n; S.paths.push_back(p); view(s, S, g["views"][n], e[n], p, NULL); }
}
// the store holding the given tree
static void tree(Source &s, Store &S, Node &g, Node &e, Node &t, const std::string &path)
{
    for(int pass = 0; pass < 2; pass++) for(index_t i = 0; i < t.number_of_children(); i++) { Node &c = t.child(i); std::string n = c.name(), p = path.empty() ? n : path + "/" + n; bool grp = c.number_of_children() > 0; if(grp != (pass == 0)) continue; if(grp) tree(s, S, g["groups"][n], e[n], c, p); else view(s, S, g["views"][n], e[n], p, &c); }
}
static std::string expand(const std::string &p, int i) { char b[200]; snprintf(b, sizeof b, p.c_str(), i); return b; }
struct Spio { int nt, nf; std::string fp, tp; };
static Spio spio(Source &s, int nt)
{
    Spio q; q.nt = nt; q.nf = s.coin() ? nt : 1 + (int)s.range(0, nt - 1); static const std::vector<std::string> F = {"dd/x_%07d.hdf5", "dd/x_%d.hdf5", "y%02d.hdf5", "dd/%05d.v.hdf5", "f%d_abc.hdf5"}, P = {"datagroup_%07d", "t%d", "t%d/", "t%d_tail", "g/%03d/x"}; q.fp = s.pick(F); q.tp = s.pick(P); return q;
}
static int file_of(const Spio &q, int t) { int f = 0, left = t; for(;; f++) { int n = q.nt / q.nf + (f < q.nt % q.nf ? 1 : 0); if(left < n) return f; left -= n; } }
static std::string write(Source &s, pbt::Ctx &c, const Spio &q, std::vector<Store> &S, Node &root)
{
    mkdir((c.scratch + "/dd").c_str(), 0777); root["file_pattern"] = q.fp; root["tree_pattern"] = q.tp; root["number_of_trees"] = (int64)q.nt; root["number_of_files"] = (int64)q.nf; root["protocol/name"] = "sidre_hdf5"; root["protocol/version"] = "0.0";
    std::map<int, Node> f; for(int t = 0; t < q.nt; t++) f[file_of(q, t)][expand(q.tp, t)]["sidre"].set(S[t].sidre); for(auto &p : f) relay::io::save(p.second, c.scratch + "/" + expand(q.fp, p.first), "hdf5"); std::string r = c.scratch + "/r.root"; relay::io::save(root, r, s.chance(1, 4) ? "json" : "hdf5"); return r;
}
static std::vector<std::string> kids(const Node &n) { return n.dtype().is_object() ? n.child_names() : std::vector<std::string>(); }

PBT(stores, 5000, 150000)
{
    bool multi = s.coin(); int nt = multi ? 1 + (int)s.range(0, 4) : 1; std::vector<Store> S(nt); for(auto &x : S) group(s, x, x.sidre, x.exp, "", 0); Spio q = spio(s, nt); std::string file; Node all, root; int views = 0; std::vector<std::string> paths;
    if(multi) { root["extra/a"] = (int64)s.range(0, 9); file = write(s, c, q, S, root); all["root"] = root; for(int t = 0; t < nt; t++) { std::string n = std::to_string(t); all[n] = S[t].exp; paths.push_back(n); for(auto &p : S[t].paths) paths.push_back(n + "/" + p); } paths.push_back("root"); paths.push_back("root/extra/a"); paths.push_back("root/protocol"); }
    else { Node f; f["sidre"].set(S[0].sidre); file = c.scratch + "/one.sidre_hdf5"; relay::io::save(f, file, "hdf5"); all = S[0].exp; paths = S[0].paths; }
    for(auto &x : S) views += x.views; if(c.want_desc) { c.desc << (multi ? std::to_string(nt) + " trees in " + std::to_string(q.nf) + " files " + q.fp + " " + q.tp : std::string("one store")) << " " << all.to_json().substr(0, 300) << ":"; } c.nontrivial(views > 2);
    relay::io::IOHandle h; Node o; int md = (int)s.range(0, 2); if(md) o["mode"] = md == 1 ? "r" : "rw"; h.open(file, "sidre_hdf5", o); int ops = 1 + (int)s.range(0, 7);
    for(int i = 0; i < ops; i++)
    {
        std::string p = s.pick(paths); bool have = true; int bad = (int)s.weighted({5, 1, 1, 1}); if(bad == 1) { p += "/zz"; have = false; } if(bad == 2) { size_t k = p.rfind('/'); p = k == std::string::npos ? "zz" : p.substr(0, k) + "/zz"; have = false; } if(bad == 3 && multi) { p = s.pick<std::string>({std::to_string(nt), "-1", "zz", std::to_string(nt + 3)}) + (s.coin() ? "/a" : ""); have = false; }
        int k = (int)s.weighted({4, 2, 2, 1, 1, 1}); if(c.want_desc) c.desc << " " << k << " " << p; std::vector<std::string> got = {"junk"};
        if(k == 0) { Node r; if(have) { h.read(p, r); CHECK_NODE(r, model::read(all.fetch_existing(p)), "read of " << p); } else if(p.compare(0, 4, "root") != 0) CHECK(thrown([&] { h.read(p, r); }), "read of " << p << " should be an error"); }
        else if(k == 1) { CHECK_EQ(h.has_path(p), have, "has_path " << p); }
        else if(k == 2) { h.list_child_names(p, got); CHECK(got == (have ? kids(all.fetch_existing(p)) : std::vector<std::string>()), "child names of " << p << " (" << got.size() << ")"); }
        else if(k == 3) { h.list_child_names(got); CHECK(got == kids(all), "child names of the root (" << got.size() << ")"); }
        else if(k == 4) { Node r; if(s.coin()) h.read(r); else h.read(s.coin() ? "" : "/", r); CHECK_NODE(r, model::read(all), "read of everything"); }
        else { Node r; r["w"] = 1; CHECK(thrown([&] { if(s.coin()) h.write(r, "w"); else h.remove(p); }), "writing should be an error"); }
    }
    h.close();
}
PBT(meshes, 1000, 30000)
{
    int nt = 1 + (int)s.range(0, 3); std::vector<Store> S(nt); Node exp; std::string mn = s.coin() ? "mesh" : "m2"; static const char *TY[] = {"uniform", "rectilinear", "quads", "tris", "structured"}; std::string ty = TY[s.range(0, 4)]; Node first;
    for(int t = 0; t < nt; t++) { Node m; blueprint::mesh::examples::basic(ty, 2 + s.range(0, 2), 2 + s.range(0, 2), 0, m); m["state/domain_id"] = (int64)t; m["state/cycle"] = (int64)7; m["fields/rank"]["association"] = "element"; m["fields/rank"]["topology"] = "mesh"; index_t n = m["fields/field/values"].dtype().number_of_elements(); m["fields/rank/values"].set(std::vector<int64>(n, t)); Node d; d[mn] = m; tree(s, S[t], S[t].sidre, S[t].exp, d, ""); if(!t) first = m; if(nt == 1) exp = S[t].exp[mn]; else { char b[40]; snprintf(b, sizeof b, "domain_%06d", t); exp[b] = S[t].exp[mn]; } }
    Spio q = spio(s, nt); Node root; blueprint::mesh::generate_index(first, mn, nt, root["blueprint_index"][mn]); std::string file = write(s, c, q, S, root); if(c.want_desc) c.desc << nt << " domains of " << ty << " in " << q.nf << " files " << q.fp; c.nontrivial(nt > 1); Node r; if(s.coin()) { relay::io::blueprint::read_mesh(file, r); } else { r["old"] = 1; relay::io::blueprint::load_mesh(file, r); }
    CHECK_NODE(r, model::read(exp), "the mesh"); Node info; CHECK(blueprint::mesh::verify(r, info), "mesh verify");
}
PBT_MAIN()

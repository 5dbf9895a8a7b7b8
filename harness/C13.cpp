// C13: meshes come back from files as they were saved, in every file layout, serially and with MPI.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include <mpi.h>
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include "conduit_relay_io_blueprint.hpp"
#include "conduit_relay_mpi_io_blueprint.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace model; using namespace conduit; using namespace vmesh; namespace rb = conduit::relay::io::blueprint; namespace pb = conduit::relay::mpi::io::blueprint;
static const MPI_Comm W = MPI_COMM_WORLD;
static std::string d6(int i) { char b[40]; snprintf(b, sizeof b, "%06d", i); return b; }
static const char *PARTS[] = {"coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets"};

// the same names, types and values; text files keep numbers as int64 or float64 and do not tell an empty array from an empty list
static bool empty_leaf(const Node &n) { return n.dtype().is_empty() || (!n.dtype().is_string() && n.dtype().is_number() && n.dtype().number_of_elements() == 0) || ((n.dtype().is_list() || n.dtype().is_object()) && n.number_of_children() == 0); }
static void same(const Node &got, const Node &want, bool text, const std::string &at)
{
    if(empty_leaf(want) && (text || want.dtype().is_empty() || want.number_of_children() == 0)) { CHECK(empty_leaf(got), at << ": is empty in the mesh, and in the file " << got.to_json()); if(!text && want.dtype().is_number()) CHECK_EQ(got.dtype().id(), want.dtype().id(), at << ": type"); return; }
    if(want.dtype().is_object())
    {
        CHECK(got.dtype().is_object(), at << ": not an object: " << got.to_json());
        for(auto &c : want.child_names()) { CHECK(got.has_child(c), at << ": lost " << c); same(got[c], want[c], text, at + "/" + c); }
        for(auto &c : got.child_names()) CHECK(want.has_child(c), at << ": has " << c << " which the mesh does not have");
        return;
    }
    if(want.dtype().is_list())
    {
        CHECK_EQ(got.number_of_children(), want.number_of_children(), at << ": number of items"); for(index_t i = 0; i < want.number_of_children(); i++) same(got.child(i), want.child(i), text, at + "[]"); return;
    }
    if(want.dtype().is_string()) { if(text && want.as_string().empty() && got.dtype().is_empty()) return; CHECK(got.dtype().is_string(), at << ": not a string: " << got.to_json()); CHECK_EQ(got.as_string(), want.as_string(), at << ": string"); return; }
    CHECK(got.dtype().is_number(), at << ": not a number: " << got.to_json());
    if(text) { if(want.dtype().is_integer()) CHECK(got.dtype().is_integer(), at << ": integers came back as " << got.dtype().name()); }
    else CHECK_EQ(got.dtype().name(), want.dtype().name(), at << ": type");
    CHECK_EQ(got.dtype().number_of_elements(), want.dtype().number_of_elements(), at << ": length");
    float64_accessor a = got.as_float64_accessor(), b = want.as_float64_accessor(); for(index_t i = 0; i < b.number_of_elements(); i++) CHECK(a[i] == b[i] || (text && want.dtype().is_floating_point() && std::fabs(a[i] - b[i]) <= 1e-14 * std::fabs(b[i])), at << ": value " << i << ": " << a[i] << ", was " << b[i]);
}
// what a domain looks like after the trip
static void expected(const Node &dom, int id, Node &want)
{
    want.reset(); for(auto p : PARTS) if(dom.has_child(p) && dom[p].number_of_children()) want[p].set(dom[p]);
    if(dom.has_child("state")) want["state"].set(dom["state"]); want["state/domain_id"].reset(); want["state/domain_id"] = (int32)id;
}
struct Doms { std::list<Node> d; std::vector<Node *> v; Arena A; M before; Node all; };
static void gen_doms(Source &s, Doms &D, int n, bool alike)
{
    DomOpts o; o.nonstd = true; if(n > 1) { static const std::vector<std::string> SH[3] = {{"line"}, {"tri", "quad", "polygonal"}, {"tet", "hex", "wedge", "pyramid", "polyhedral"}}; o.g.cyl = false; o.g.topos = {s.pick(o.g.topos)}; int dm = 1 + (int)s.range(0, 2); o.g.min_dim = o.g.max_dim = dm; o.g.shapes = SH[dm - 1]; } bool cyc = s.coin(), tim = s.coin(), did = s.coin(), st = s.coin(); int cy = (int)s.pick<int>({0, 7, 123456, 1234567, 99}); (void)alike;
    for(int i = 0; i < n; i++)
    {
        D.d.emplace_back(); Node &d = D.d.back(); gen_domain(s, d, &D.A, o, (int)s.range(0, 9)); if(d.has_child("state")) d.remove("state"); D.v.push_back(&d); if(d.has_child("fields")) for(auto &fn : d["fields"].child_names()) { Node &f = d["fields"][fn]; if(f.has_child("basis") && f["basis"].as_string().empty()) f["basis"] = "H1"; }
        if(st) { if(cyc) d["state/cycle"] = cy; if(tim) d["state/time"] = 1.5; if(did) { if(s.coin()) d["state/domain_id"] = (int)s.range(0, 9); else d["state/domain_id"] = (int64)s.range(0, 9); } if(s.chance(1, 4)) d["state/my/info"] = "x"; if(d.has_child("state") && s.chance(1, 4)) { Node t; t.set(d["state"]); d.remove("state"); d["state"].set(t); } }
        if(s.chance(1, 6)) d["extra/thing"] = 3;
    }
}
// as single domain, list or object
static void as_mesh(Source &s, Doms &D, Node &m)
{
    if(D.v.size() == 1 && s.coin()) { m.set_external(*D.v[0]); return; }
    bool list = s.coin(); for(size_t i = 0; i < D.v.size(); i++) { if(list) m.append().set_external(*D.v[i]); else m["d" + std::to_string(i * 3 % 7) + "_" + std::to_string(i)].set_external(*D.v[i]); }
}
static const std::vector<std::string> PROTO = {"hdf5", "json", "yaml"};
struct Opt { Node n; std::string proto, name, style, suffix; int files; };
static Opt gen_opt(Source &s, const std::string &proto)
{
    Opt o; o.proto = proto; o.name = "mesh"; o.files = -1; if(s.chance(1, 6)) return o; if(s.coin()) { o.style = s.pick<std::string>({"default", "root_only", "multi_file"}); o.n["file_style"] = o.style; } if(s.coin()) { o.suffix = s.pick<std::string>({"default", "cycle", "none"}); o.n["suffix"] = o.suffix; }
    if(s.coin()) { o.name = s.pick<std::string>({"m", "my_mesh", "mesh", "topologies", "a b"}); o.n["mesh_name"] = o.name; } if(s.coin()) { o.files = (int)s.range(0, 4) - 1; o.n["number_of_files"] = o.files; }
    return o;
}
static bool is_text(const std::string &p) { return p == "json" || p == "yaml"; }
static std::string suffix(const Opt &o, const Node &dom)
{
    bool has = dom.has_path("state/cycle"); if(o.suffix == "none" || !has) return ""; return ".cycle_" + d6((int)dom["state/cycle"].to_int());
}
static std::string place(Source &s, pbt::Ctx &c)
{
    std::string d = c.scratch; if(s.coin()) { d += "/sub"; mkdir(d.c_str(), 0755); } std::string nm = s.pick<std::string>({"out", "o.u.t", "o t", "out.root", "domain_000000"}); int k = (int)s.weighted({3, 1, 1}); if(k == 0) return d + "/" + nm; CHECK(chdir(d.c_str()) == 0, "chdir"); return (k == 1 ? "" : "./") + nm;
}
static void check_doms(const Node &got, const std::vector<Node *> &v, bool text, const char *what)
{
    CHECK_EQ(got.number_of_children(), (index_t)v.size(), what << ": number of domains");
    for(size_t i = 0; i < v.size(); i++) { std::string nm = "domain_" + d6((int)i); CHECK(got.has_child(nm), what << ": no " << nm); Node w; expected(*v[i], (int)i, w); same(got[nm], w, text, nm); }
}
static void describe(pbt::Ctx &c, const Opt &o, const std::string &path, const Node &m) { if(c.want_desc) c.desc << path << " " << o.proto << " " << o.n.to_json() << "\n" << m.to_yaml(); }

// the root file and the number of data files
static int count_files(const std::string &d) { DIR *h = opendir(d.c_str()); if(!h) return -1; int k = 0; while(struct dirent *e = readdir(h)) if(e->d_name[0] != '.') k++; closedir(h); return k; }
static void layout(const std::string &base, const Opt &o, int n)
{
    bool multi = o.style == "multi_file" || (o.style != "root_only" && n > 1); int want = multi ? (o.files <= 0 || o.files > n ? n : o.files) : -1;
    CHECK_EQ(count_files(base), want, "number of files in the directory of data files");
}
PBT(save_load, 1500, 100000)
{
    int n = 1 + s.len(3); Doms D; gen_doms(s, D, n, true); Node m; as_mesh(s, D, m); Opt o = gen_opt(s, s.pick(PROTO)); if(o.suffix == "cycle" && !(*D.v[0]).has_path("state/cycle")) (*D.v[0])["state/cycle"] = 3, m.reset(), as_mesh(s, D, m);
    std::string path = place(s, c); describe(c, o, path, m); c.nontrivial(n > 1); M before = read(m);
    bool w = s.chance(1, 3); bool bare = o.n.number_of_children() == 0, def = bare && o.proto == "hdf5" && s.coin(); if(w) { if(def) rb::write_mesh(m, path); else if(bare) rb::write_mesh(m, path, o.proto); else rb::write_mesh(m, path, o.proto, o.n); } else { if(def) rb::save_mesh(m, path); else if(bare) rb::save_mesh(m, path, o.proto); else rb::save_mesh(m, path, o.proto, o.n); }
    CHECK_NODE(m, before, "the mesh that was saved"); D.A.check_gaps("save");
    std::string root = path + suffix(o, *D.v[0]) + ".root"; Node got, lo; if(s.coin()) got["junk"] = 1; if(s.coin()) lo["mesh_name"] = o.name;
    rb::load_mesh(root, lo, got); check_doms(got, D.v, is_text(o.proto), "loaded"); layout(path + suffix(o, *D.v[0]), o, n);
    if(s.coin())
    {   // the same again over it: save replaces
        Doms E; int k = 1 + s.len(3); gen_doms(s, E, k, true); for(auto *d : E.v) { if(d->has_child("state")) d->remove("state"); if(D.v[0]->has_path("state/cycle")) (*d)["state/cycle"].set((*D.v[0])["state/cycle"]); } Node m2; as_mesh(s, E, m2);
        rb::save_mesh(m2, path, o.proto, o.n); rb::load_mesh(root, got); check_doms(got, E.v, is_text(o.proto), "loaded after a second save");
    }
}

static void no_state(Doms &D, const Node *cycle) { for(auto *d : D.v) { if(d->has_child("state")) d->remove("state"); if(cycle) (*d)["state/cycle"].set(*cycle); } }
// new values in the same structure
static void revalue(Source &s, Node &n) { if(n.number_of_children()) { for(index_t i = 0; i < n.number_of_children(); i++) revalue(s, n.child(i)); return; } if(!n.dtype().is_floating_point()) return; std::vector<double> v; for(index_t i = 0; i < n.dtype().number_of_elements(); i++) v.push_back((double)s.range(0, 40)); Node t; t.set(v); if(n.dtype().is_float64()) { float64_array a = n.value(); a.set(v); } else { float32_array a = n.value(); a.set(v); } }
// several meshes in one set of files
PBT(several, 700, 50000)
{
    int k = 2 + s.len(1); std::string proto = s.pick(PROTO), path = place(s, c); static const char *NM[3] = {"b_mesh", "a_mesh", "mesh"}; std::list<Doms> DD; std::vector<Doms *> D; std::vector<Opt> O; Node cyc; cyc = 5; bool cycle = s.coin(); std::string root; c.nontrivial(); bool alike = proto == "hdf5"; int n0 = 1 + s.len(2); Opt o0 = gen_opt(s, proto);   // (the root entries of an existing HDF5 file cannot change their lengths)
    for(int i = 0; i < k; i++)
    {
        DD.emplace_back(); Doms &d = DD.back(); D.push_back(&d); gen_doms(s, d, alike ? n0 : 1 + s.len(2), true); no_state(d, cycle ? &cyc : NULL); Node m; as_mesh(s, d, m); Opt o = alike ? o0 : gen_opt(s, proto); if(!cycle) { o.suffix = ""; if(o.n.has_child("suffix")) o.n.remove("suffix"); } else { o.suffix = "none"; o.n["suffix"] = "none"; } o.name = NM[i]; o.n["mesh_name"] = NM[i]; describe(c, o, path, m);
        O.push_back(o); root = path + ".root"; M before = read(m); rb::write_mesh(m, path, proto, o.n); CHECK_NODE(m, before, "the mesh that was written");
    }
    for(int i = 0; i < k; i++) { Node lo, got; lo["mesh_name"] = NM[i]; rb::load_mesh(root, lo, got); check_doms(got, D[i]->v, is_text(proto), NM[i]); }
    // one of them again, with new values
    int j = (int)s.range(0, k - 1); if(s.coin()) return; Node first, jo; jo["mesh_name"] = NM[j]; rb::load_mesh(root, jo, first); for(auto *d : D[j]->v) revalue(s, *d); Node m; as_mesh(s, *D[j], m); rb::write_mesh(m, path, proto, O[j].n);
    for(int i = 0; i < k; i++) { Node lo, got; lo["mesh_name"] = NM[i]; rb::load_mesh(root, lo, got); check_doms(got, D[i]->v, is_text(proto), "after a second write"); if(i == j) { rb::read_mesh(root, lo, first); check_doms(first, D[j]->v, is_text(proto), "read over the older state"); } }
}

// root files by other writers: file and tree patterns, or a partition pattern and map in any order
PBT(patterns, 700, 50000)
{
    int n = 1 + s.len(5), nf = 1 + (int)s.range(0, n - 1); Doms D; gen_doms(s, D, n, true); no_state(D, NULL); std::string proto = s.pick(PROTO), dir = c.scratch + "/d"; mkdir(dir.c_str(), 0755); c.nontrivial(n > 1); bool legacy = s.coin(); std::string mn = s.pick<std::string>({"mesh", "m"});
    std::vector<int> file(n); int q = n / nf, r = n % nf; for(int i = 0, d = 0; i < nf; i++) for(int j = 0; j < q + (i < r); j++) file[d++] = i;                  // the first n % nf files hold one more
    std::vector<int> fid(n), order; for(int i = 0; i < n; i++) { fid[i] = file[i]; order.push_back(i); } if(!legacy) { for(int i = n - 1; i > 0; i--) std::swap(order[i], order[s.range(0, i)]); for(auto &f : fid) f = (int)s.range(0, 3) * 7; }
    int w1 = (int)s.range(0, 8), w2 = (int)s.range(0, 8); w1 = w1 == 1 ? 2 : w1; w2 = w2 == 1 ? 2 : w2; auto pat = [](int w) { return w < 2 ? std::string("%d") : "%0" + std::to_string(w) + "d"; }; auto num = [](int w, int x) { char b[40]; snprintf(b, sizeof b, "%0*d", w < 2 ? 1 : w, x); return std::string(b); };
    std::string tail = s.pick<std::string>({"", "_x"}), ext = s.pick<std::string>({"." + proto, "", ".d"}); bool one_file = legacy && nf == 1 && s.coin(), tree_each = n != nf || !legacy || s.coin(), slash = s.coin();
    auto fname = [&](int d) { return "d/f" + (one_file ? std::string() : num(w1, fid[d])) + tail + ext; }; auto tname = [&](int d) { return tree_each ? "/t" + num(w2, d) + tail : std::string(""); };
    Node root, idx; { Node m; for(auto *d : D.v) m.append().set_external(*d); blueprint::mesh::generate_index(m, mn, n, idx); } root["blueprint_index"][mn].set(idx); if(s.coin() || proto != "hdf5") root["protocol/name"] = proto;
    for(int d = 0; d < n; d++) { relay::io::IOHandle h; h.open(c.scratch + "/" + fname(d), proto); h.write(*D.v[d], (tname(d).empty() ? mn : tname(d).substr(1) + "/" + mn)); }
    if(legacy) { root["file_pattern"] = "d/f" + (one_file ? std::string() : pat(w1)) + tail + ext; root["tree_pattern"] = tree_each ? "/t" + pat(w2) + tail + (slash ? "/" : "") : "/"; root["number_of_files"] = nf; root["number_of_trees"] = n; if(one_file) root["number_of_files"] = 1; }
    else
    {
        auto fp = [](const char *v, int w) { return w < 2 ? "{" + std::string(v) + ":d}" : "{" + std::string(v) + ":0" + std::to_string(w) + "d}"; };
        Node &st = root["blueprint_index"][mn]["state"]; st["partition_pattern"] = "d/f" + fp("file", w1) + tail + ext + ":" + "/t" + fp("domain", w2) + tail + (slash ? "/" : "");
        std::vector<int32> f32, d32; for(int i : order) { f32.push_back(fid[i]); d32.push_back(i); } st["partition_map/file"].set(f32); st["partition_map/domain"].set(d32);
    }
    relay::io::save(root, c.scratch + "/r.root", proto); if(c.want_desc) c.desc << root.to_yaml(); Node got; rb::load_mesh(c.scratch + "/r.root", got);
    for(auto &x : got.child_names()) { if(got[x].has_child("state")) got[x].remove("state"); }
    CHECK_EQ(got.number_of_children(), (index_t)n, "number of domains"); for(int i = 0; i < n; i++) { Node w; expected(*D.v[i], i, w); w.remove("state"); CHECK(got.has_child("domain_" + d6(i)), "domain " << i); same(got["domain_" + d6(i)], w, is_text(proto), "domain " + std::to_string(i)); }
}
// MPI: every rank saves its domains; any number of ranks loads them
static void go(Source &s, int n, std::function<void(int)> f) { try { fm::run(n, [&s](uint64_t m) { return s.draw(m); }, f); } catch(fm::Failure &e) { throw pbt::Fail(e.what()); } }
PBT(mpi, 1000, 60000)
{
    int nr = 1 + (int)s.range(0, 3), n = s.chance(1, 12) ? 0 : 1 + s.len(4), nl = 1 + (int)s.range(0, 3); Doms D; gen_doms(s, D, n, true); std::vector<Node> m(nr); std::vector<std::vector<Node *> > own(nr); std::vector<Node *> order; for(auto *d : D.v) own[s.range(0, nr - 1)].push_back(d);
    Opt o = gen_opt(s, s.pick(PROTO)); if(o.suffix == "cycle") for(auto *d : D.v) if(!d->has_path("state/cycle")) (*d)["state/cycle"] = 3;
    for(int r = 0; r < nr; r++) { Doms t; t.v = own[r]; as_mesh(s, t, m[r]); for(auto *d : own[r]) order.push_back(d); if(own[r].empty() && s.coin()) m[r].set(DataType::object()); }
    std::string path = place(s, c); c.nontrivial(nr > 1 && n > 1); if(c.want_desc) { c.desc << nr << " ranks save, " << nl << " load " << path << " " << o.proto << " " << o.n.to_json(); for(int r = 0; r < nr; r++) c.desc << "\nrank " << r << ":\n" << m[r].to_yaml(); }
    std::vector<M> before; for(auto &x : m) before.push_back(read(x)); bool w = s.chance(1, 3);
    go(s, nr, [&](int r) { if(o.n.number_of_children() == 0) { if(o.proto == "hdf5") { if(w) pb::write_mesh(m[r], path, W); else pb::save_mesh(m[r], path, W); } else if(w) pb::write_mesh(m[r], path, o.proto, W); else pb::save_mesh(m[r], path, o.proto, W); } else if(w) pb::write_mesh(m[r], path, o.proto, o.n, W); else pb::save_mesh(m[r], path, o.proto, o.n, W); });
    for(int r = 0; r < nr; r++) CHECK_NODE(m[r], before[r], "the mesh that rank " << r << " saved"); D.A.check_gaps("save");
    if(n == 0) { CHECK_EQ(count_files(c.scratch + "/."), count_files(c.scratch + "/sub") < 0 ? 0 : 1, "files of an empty mesh"); return; }
    std::string base = path + suffix(o, *order[0]), root = base + ".root"; layout(base, o, n); Node got; if(s.coin()) { rb::load_mesh(root, got); check_doms(got, order, is_text(o.proto), "loaded serially"); }
    std::vector<Node> part(nl); Node lo; if(s.coin()) lo["mesh_name"] = o.name; go(s, nl, [&](int r) { pb::load_mesh(root, lo, part[r], W); });
    got.reset(); int q = n / nl, x = n % nl; for(int r = 0; r < nl; r++) { CHECK_EQ(part[r].number_of_children(), (index_t)(q + (r < x)), "number of domains loaded by rank " << r); for(auto &cn : part[r].child_names()) { CHECK(!got.has_child(cn), cn << " was loaded twice"); got[cn].set(part[r][cn]); } }
    check_doms(got, order, is_text(o.proto), "loaded");
}
// bad options and files that are not there: an error on every rank, and no hang
PBT(errors, 300, 20000)
{
    int nr = 1 + (int)s.range(0, 3), k = (int)s.range(0, 4); Doms D; gen_doms(s, D, nr, true); no_state(D, NULL); std::string path = c.scratch + "/out"; Node o, lo; std::vector<char> threw(nr, 0); c.nontrivial(nr > 1); if(c.want_desc) c.desc << nr << " ranks, kind " << k; std::string root = path + ".root", proto = s.pick(PROTO);
    if(k == 0) o["file_style"] = "wrong"; if(k == 1) o["suffix"] = "wrong"; if(k >= 2) { Node m; as_mesh(s, D, m); rb::save_mesh(m, path, proto); } if(k == 2) root += "x"; if(k == 3) lo["mesh_name"] = "nope"; if(k == 4) { FILE *f = fopen(root.c_str(), "w"); fputs(s.coin() ? "" : "hello\n", f); fclose(f); }
    go(s, nr, [&](int r) { Node g; try { if(k < 2) pb::save_mesh(*D.v[r], path, proto, o, W); else pb::load_mesh(root, lo, g, W); } catch(conduit::Error &) { threw[r] = 1; } });
    for(int r = 0; r < nr; r++) CHECK(threw[r], "rank " << r << " saw no error");
    bool t = false; Node g; try { if(k < 2) rb::save_mesh(*D.v[0], path, proto, o); else rb::load_mesh(root, lo, g); } catch(conduit::Error &) { t = true; } CHECK(t, "no error in serial");
}
PBT_MAIN()

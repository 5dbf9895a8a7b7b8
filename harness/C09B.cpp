// C09, second part: the C interfaces of blueprint and relay do what the C++ ones do.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include "conduit_cpp_to_c.hpp"
#include "conduit_relay.hpp"
#include "conduit_blueprint.hpp"
#include "conduit_blueprint.h"
#include "conduit_relay.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace model; using namespace conduit; using namespace vmesh; namespace bp = conduit::blueprint;

template<class F> static bool thrown(F f) { try { f(); } catch(conduit::Error &) { return true; } return false; }
// both sides run; either both raise an error or neither, and the outputs are the same
template<class A, class B> static bool both(const std::string &w, Node &c, Node &p, A a, B b)
{
    bool x = thrown(a), y = thrown(b); CHECK_EQ(x, y, w << ": error raised (C, C++)"); if(!x) CHECK_NODE(c, model::read(p), w << ": output"); return !x;
}
static void mutate(Source &s, Node &n, int depth = 0)
{
    if(n.number_of_children() && (depth < 1 || s.chance(4, 5))) { int k = (int)s.range(0, n.number_of_children() - 1); if(s.chance(1, 5) && n.dtype().is_object()) { n.remove(k); return; } mutate(s, n.child(k), depth + 1); return; }
    switch(s.range(0, 3)) { case 0: n.reset(); break; case 1: n.set("bad"); break; case 2: n.set((int64)s.range(-3, 9)); break; default: n.reset(); n["sub"] = 1.5; }
}
static const std::vector<std::string> BT = {"uniform", "rectilinear", "structured", "tris", "quads", "quads_poly", "tets", "hexs", "hexs_poly", "points", "wedges", "pyramids", "lines", "mixed", "mixed_2d", "quads_and_tris", "quads_and_tris_offsets", "hexs_and_tets", "points_implicit", "nothing"};
static void example(Source &s, pbt::Ctx &c, Node &n, Node &p)
{
    conduit_node *cn = c_node(&n); int k = (int)s.range(0, 7); index_t x = s.range(2, 5), y = s.range(2, 5), z = s.pick<index_t>({0, 1, 2, 3, 4}); std::string t; if(s.chance(1, 4)) { n["old"] = 1; p["old"] = 1; }
    if(c.want_desc) c.desc << "example " << k << " " << x << "," << y << "," << z;
    switch(k)
    {
        case 0: t = s.pick(BT); if(c.want_desc) c.desc << " " << t; both("basic " + t, n, p, [&] { conduit_blueprint_mesh_examples_basic(t.c_str(), x, y, z, cn); }, [&] { bp::mesh::examples::basic(t, x, y, z, p); }); break;
        case 1: t = s.pick(BT); if(c.want_desc) c.desc << " " << t; both("braid " + t, n, p, [&] { conduit_blueprint_mesh_examples_braid(t.c_str(), x, y, z, cn); }, [&] { bp::mesh::examples::braid(t, x, y, z, p); }); break;
        case 2: { double v[6]; for(double &d : v) d = s.range(-20, 20) / 8.0; both("julia", n, p, [&] { conduit_blueprint_mesh_examples_julia(x, y, v[0], v[1], v[2], v[3], v[4], v[5], cn); }, [&] { bp::mesh::examples::julia(x, y, v[0], v[1], v[2], v[3], v[4], v[5], p); }); break; }
        case 3: both("spiral", n, p, [&] { conduit_blueprint_mesh_examples_spiral(x, cn); }, [&] { bp::mesh::examples::spiral(x, p); }); break;
        case 4: x = s.range(1, 3); z = s.range(1, 3); both("polytess", n, p, [&] { conduit_blueprint_mesh_examples_polytess(x, z, cn); }, [&] { bp::mesh::examples::polytess(x, z, p); }); break;
        case 5: t = s.pick<std::string>({"matsets", "specsets", "nestsets", "none"}); if(t == "nestsets") { n.reset(); p.reset(); x = s.pick<index_t>({3, 5}); y = s.pick<index_t>({3, 5}); } both("misc " + t, n, p, [&] { conduit_blueprint_mesh_examples_misc(t.c_str(), x, y, z, cn); }, [&] { bp::mesh::examples::misc(t, x, y, z, p); }); break;
        case 6: t = s.pick<std::string>({"interleaved", "separate", "contiguous", "interleaved_mixed", "odd"}); both("xyz " + t, n, p, [&] { conduit_blueprint_mcarray_examples_xyz(t.c_str(), x * y, cn); }, [&] { bp::mcarray::examples::xyz(t, x * y, p); }); if(!n.dtype().is_empty()) CHECK_EQ(conduit_blueprint_mcarray_is_interleaved(cn), (int)bp::mcarray::is_interleaved(p), "is_interleaved"); break;
        default: z = s.range(1, 4); both("table", n, p, [&] { conduit_blueprint_table_examples_basic(x, y, z, cn); }, [&] { bp::table::examples::basic(x, y, z, p); });
    }
}
PBT(c_examples, 1500, 60000)
{
    Node n, p; example(s, c, n, p); c.nontrivial(n.number_of_children() > 1);
    Node a, b; both("blueprint about", a, b, [&] { conduit_blueprint_about(c_node(&a)); }, [&] { bp::about(b); }); Node d, e; both("relay about", d, e, [&] { conduit_relay_about(c_node(&d)); }, [&] { relay::about(e); }); Node f, g; both("io about", f, g, [&] { conduit_relay_io_about(c_node(&f)); }, [&] { relay::io::about(g); });
}
PBT(c_verify, 4000, 200000)
{
    Node n, p; pbt::Ctx q; example(s, q, n, p); int mu = (int)s.range(0, 2); for(int i = 0; i < mu; i++) mutate(s, n); Node *m = &n; int down = (int)s.range(0, 3); while(down-- && m->number_of_children()) m = &m->child(s.range(0, m->number_of_children() - 1));
    static const std::vector<std::string> PR = {"mesh", "mcarray", "table", "o2mrelation", "zfparray", "mesh/coordset", "mesh/topology", "mesh/field", "mesh/index", "mesh/matset", "table/x", "mcarray/y", "", "zz"}; static const std::vector<std::string> SUB = {"coordset", "topology", "field", "matset", "specset", "adjset", "nestset", "index", "coordset/index", "topology/index", "field/index", "", "zz"};
    std::string pr = s.pick(PR), sub = s.pick(SUB); conduit_node *cn = c_node(m); M before = model::read(*m); int k = (int)s.range(0, 5); if(c.want_desc) c.desc << k << " " << pr << "|" << sub << " " << m->to_json().substr(0, 200); Node a, b; if(s.chance(1, 4)) { a["o"] = 1; b["o"] = 1; } conduit_node *ca = c_node(&a); bool mc = s.coin(); int x = 7, y = 7; std::string w = "verify " + std::to_string(k);
    bool ok = both(w, a, b, [&] { x = k == 0 ? conduit_blueprint_verify(pr.c_str(), cn, ca) : k == 1 ? conduit_blueprint_mesh_verify(cn, ca) : k == 2 ? conduit_blueprint_mesh_verify_sub_protocol(sub.c_str(), cn, ca) : k == 3 ? conduit_blueprint_mcarray_verify(cn, ca) : k == 4 ? conduit_blueprint_table_verify(cn, ca) : mc ? conduit_blueprint_mcarray_verify_sub_protocol(sub.c_str(), cn, ca) : conduit_blueprint_table_verify_sub_protocol(sub.c_str(), cn, ca); },
        [&] { y = k == 0 ? bp::verify(pr, *m, b) : k == 1 ? bp::mesh::verify(*m, b) : k == 2 ? bp::mesh::verify(sub, *m, b) : k == 3 ? bp::mcarray::verify(*m, b) : k == 4 ? bp::table::verify(*m, b) : mc ? bp::mcarray::verify(sub, *m, b) : bp::table::verify(sub, *m, b); });
    if(ok) { CHECK(x == y && (x == 0 || x == 1), "result " << x << " not " << y); c.nontrivial(x == 1 || mu > 0); } CHECK_NODE(*m, before, "the node");
}
PBT(c_mcarray, 3000, 150000)
{
    static const std::vector<int> T = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
    Arena A; Node n; int nc = 1 + (int)s.range(0, 3), len = s.len(8); bool list = s.chance(1, 4); int id = s.pick(T); for(int k = 0; k < nc; k++) { std::vector<double> v; int l = s.chance(1, 12) ? len + 1 : len; for(int i = 0; i < l; i++) v.push_back((double)s.range(0, 100)); if(s.chance(1, 4)) id = s.pick(T); put(s, list ? n.append() : n[std::string(1, (char)('a' + k))], num(id, v), &A); }
    if(c.want_desc) c.desc << nc << " of " << len; c.nontrivial(nc > 1 && len > 1); M before = model::read(n); conduit_node *cn = c_node(&n); CHECK_EQ(conduit_blueprint_mcarray_is_interleaved(cn), (int)bp::mcarray::is_interleaved(n), "is_interleaved"); bool il = s.coin(); Node a, b; int x = 7, y = 7; if(s.chance(1, 3)) { a["o"] = 1; b["o"] = 1; }
    if(both("mcarray", a, b, [&] { x = il ? conduit_blueprint_mcarray_to_interleaved(cn, c_node(&a)) : conduit_blueprint_mcarray_to_contiguous(cn, c_node(&a)); }, [&] { y = il ? bp::mcarray::to_interleaved(n, b) : bp::mcarray::to_contiguous(n, b); })) { CHECK_EQ(x, y, "result"); if(len > 0 && x == 1) { CHECK_EQ(bp::mcarray::is_interleaved(a), bp::mcarray::is_interleaved(b), "layout"); CHECK_EQ(a.is_contiguous(), b.is_contiguous(), "contiguity"); } }
    CHECK_NODE(n, before, "the node"); A.check_gaps("mcarray");
}
PBT(c_mesh, 1500, 60000)
{
    Node n; index_t nd = 1 + s.range(0, 2); for(index_t d = 0; d < nd; d++) { Node &q = nd == 1 && s.coin() ? n : n["d" + std::to_string(d)]; std::string t = s.pick<std::string>({"uniform", "rectilinear", "structured", "quads", "tris"}); bp::mesh::examples::braid(t, 2 + s.range(0, 3), 2 + s.range(0, 3), 0, q); q["state/domain_id"] = (int64)d; if(s.coin()) q["state/cycle"] = (int64)s.range(0, 99); }
    Node o, a, b; conduit_node *cn = c_node(&n); M before = model::read(n); int k = (int)s.range(0, 2); if(c.want_desc) c.desc << k << " " << nd << " domains"; c.nontrivial(nd > 1);
    if(k == 0) { std::string r = s.pick<std::string>({"", "mesh", "a/b"}); index_t num = s.range(1, 9); const Node &one = n.has_child("coordsets") ? n : n.child(0); both("generate_index", a, b, [&] { conduit_blueprint_mesh_generate_index(c_node(const_cast<Node *>(&one)), r.c_str(), num, c_node(&a)); }, [&] { bp::mesh::generate_index(one, r, num, b); }); }
    else if(k == 1) { o["target"] = (int64)s.range(1, 4); if(s.coin()) o["mapping"] = (int64)s.range(0, 1); if(s.chance(1, 3)) { Node &e = o["selections"].append(); e["type"] = "field"; e["field"] = "nope"; } both("partition", a, b, [&] { conduit_blueprint_mesh_partition(cn, c_node(&o), c_node(&a)); }, [&] { bp::mesh::partition(n, o, b); }); }
    else { if(s.coin()) o["add_domain_info"] = (int64)s.range(0, 1); if(s.coin()) o["add_element_centers"] = (int64)s.range(0, 1); if(s.coin()) o["fill_value"] = 7.5; if(s.chance(1, 3)) o["field_names"].append() = "braid"; both("flatten", a, b, [&] { conduit_blueprint_mesh_flatten(cn, c_node(&o), c_node(&a)); }, [&] { bp::mesh::flatten(n, o, b); }); }
    CHECK_NODE(n, before, "the mesh");
}
static long size_of(const std::string &p) { struct stat st; return stat(p.c_str(), &st) ? -1 : (long)st.st_size; }
static int sd_steps(const char *p) { int v = -99; if(thrown([&] { v = conduit_relay_io_query_number_of_steps(p); })) v = -98; return v; }
PBT(c_relay, 2000, 80000)
{
    struct P { const char *p, *e; }; static const std::vector<P> PS = {{"conduit_bin", "conduit_bin"}, {"conduit_json", "conduit_json"}, {"conduit_base64_json", "conduit_base64_json"}, {"json", "json"}, {"yaml", "yaml"}, {"hdf5", "hdf5"}, {"conduit_silo", "silo"}}; P p = s.pick(PS); bool h5 = std::string(p.p) == "hdf5"; int ops = 1 + (int)s.range(0, 4);
    std::string fc = c.scratch + "/c." + p.e, fp = c.scratch + "/p." + p.e; if(c.want_desc) c.desc << p.p << ":"; c.nontrivial(ops > 1);
    auto drop = [](const std::string &f) { unlink(f.c_str()); unlink((f + "_json").c_str()); }; drop(fc); drop(fp);
    for(int i = 0; i < ops; i++)
    {
        Node n, o, a, b; for(int k = 0, m = 1 + (int)s.range(0, 2); k < m; k++) { std::string nm(1, (char)('a' + s.range(0, 4))); if(s.coin()) n[nm] = std::vector<int64>(3 + s.range(0, 9), (int64)s.range(0, 50)); else n[nm + "/k"] = s.range(0, 50) / 4.0; }
        std::string sub = h5 && s.chance(1, 4) ? ":grp/x" : ""; const char *pr = s.chance(1, 3) ? NULL : p.p; std::string prs = pr ? pr : ""; bool opt = s.coin(); int k = (int)s.weighted({3, 3, 1, 4, 2}); int st = (int)s.range(0, 1), dm = (int)s.range(0, 1);
        if(opt && h5) { if(k < 3) { if(s.coin()) o["hdf5/compact_storage/enabled"] = s.coin() ? "false" : "true"; if(s.coin()) { o["hdf5/chunking/enabled"] = "true"; o["hdf5/chunking/threshold"] = 8; o["hdf5/chunking/chunk_size"] = 64; o["hdf5/chunking/compression/method"] = s.coin() ? "gzip" : "none"; } } }
        if(c.want_desc) c.desc << " " << k << (pr ? "" : "(no protocol)") << (opt ? "+options" : "") << sub; conduit_node *co = opt ? c_node(&o) : NULL, *cn = c_node(&n); std::string xc = fc + sub, xp = fp + sub; std::string w = std::string(p.p) + " operation " + std::to_string(i); M before = model::read(n);
        Node none;
        if(k == 0) both(w + " save", none, none, [&] { conduit_relay_io_save(cn, xc.c_str(), pr, co); }, [&] { if(opt) relay::io::save(n, xp, prs, o); else relay::io::save(n, xp, prs); });
        else if(k == 1) both(w + " save_merged", none, none, [&] { conduit_relay_io_save_merged(cn, xc.c_str(), pr, co); }, [&] { if(opt) relay::io::save_merged(n, xp, prs, o); else relay::io::save_merged(n, xp, prs); });
        else if(k == 2) both(w + " add_step", none, none, [&] { conduit_relay_io_add_step(cn, xc.c_str(), pr, co); }, [&] { if(opt) relay::io::add_step(n, xp, prs, o); else relay::io::add_step(n, xp, prs); });
        else
        {
            if(s.chance(1, 3)) { a["z"] = 1; b["z"] = 1; } if(h5 && opt && s.coin()) { sub = ":a"; xc = fc + sub; xp = fp + sub; o["size"] = (int64)s.range(1, 3); o["offset"] = (int64)s.range(0, 2); }
            if(k == 3) both(w + " load", a, b, [&] { conduit_relay_io_load(xc.c_str(), pr, co, c_node(&a)); }, [&] { if(opt) relay::io::load(xp, prs, o, b); else relay::io::load(xp, prs, b); });
            else both(w + " load step", a, b, [&] { conduit_relay_io_load_step_and_domain(xc.c_str(), pr, st, dm, co, c_node(&a)); }, [&] { if(opt) relay::io::load(xp, prs, st, dm, o, b); else relay::io::load(xp, prs, st, dm, b); });
        }
        CHECK_NODE(n, before, "the saved node"); CHECK_EQ(size_of(fc), size_of(fp), w << ": size of the file"); CHECK_EQ(size_of(fc + "_json"), size_of(fp + "_json"), w << ": size of the schema file");
        Node x, y; both(w + " contents", x, y, [&] { relay::io::load(fc, p.p, x); }, [&] { relay::io::load(fp, p.p, y); });
        int u = -99; if(thrown([&] { u = relay::io::query_number_of_steps(fp); })) u = -98; CHECK_EQ(sd_steps(fc.c_str()), u, "steps"); u = -99; if(thrown([&] { u = relay::io::query_number_of_domains(fp); })) u = -98; int v = -99; if(thrown([&] { v = conduit_relay_io_query_number_of_domains(fc.c_str()); })) v = -98; CHECK_EQ(v, u, "domains");
    }
}
PBT_MAIN()

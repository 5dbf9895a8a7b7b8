// C14: meshes saved to Silo files come back with the same points, elements, fields and materials.
#include "pbt_main.hpp"
#include "model.hpp"
#include "mesh.hpp"
#include "domain.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_silo.hpp"
#include <list>
#include <sys/stat.h>
#include <unistd.h>
using namespace model; using namespace conduit; using namespace vmesh; namespace ds = conduit::relay::io::silo;

struct Fld { std::string name; bool vertex; int id; std::vector<std::vector<double> > comp; std::string units, label, vd; bool mixed = false; std::vector<std::map<int, double> > mv; };
struct Dom { Mesh m; std::vector<Fld> f; bool has_mat = false; Mats mats; std::string xu, xl; bool has_units = false, has_labels = false; VI org; };
struct Saved { std::vector<Dom> d; Node mesh; std::list<Node> keep; Arena A; bool list = true, pdb = false /* the PDB driver of Silo keeps its own state */; int cycle = -1; double time = -1; };

static const std::vector<int> VT = {DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID};
static double sval(Source &s, int id) { double v = (double)s.range(-40, 40); if(id == DataType::FLOAT64_ID || id == DataType::FLOAT32_ID) v /= 4; return v; }
static void gen_saved(Source &s, pbt::Ctx &c, Saved &S, bool ovl)
{
    GenMesh g; g.min_dim = 2; g.topos = {"uniform", "rectilinear", "structured", "unstructured", "unstructured", "points"}; g.shapes = {"tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "line"}; g.unused = true;
    if(ovl) { g.topos = {"uniform", "rectilinear", "structured", "unstructured", "unstructured"}; g.shapes = {"quad", "hex"}; }
    int nd = 1 + s.len(3); int dim = 2 + (int)s.range(0, 1); g.min_dim = g.max_dim = dim; if(dim == 2) g.shapes = ovl ? std::vector<std::string>{"quad"} : std::vector<std::string>{"tri", "quad", "polygonal", "line"};
    bool cyl = s.chance(1, 6); g.cyl = false;
    if(nd > 1 && s.chance(3, 4)) { g.topos = {s.pick(g.topos)}; g.shapes = {s.pick(g.shapes)}; }
    // fields of the whole mesh; a domain may lack some
    int nf = s.len(4); std::vector<Fld> proto; for(int i = 0; i < nf; i++) { Fld f; f.name = std::string("f") + "abcd"[i]; if(s.chance(1, 4)) f.name = s.pick<std::string>({"my field", "p-q", "a.b"}) + "abcd"[i]; f.vertex = s.coin(); f.id = s.pick(VT); f.comp.resize(s.chance(1, 3) ? 2 + s.range(0, 1) : 1); if(s.chance(1, 5)) f.units = "cm"; if(s.chance(1, 5)) f.label = "Lab el"; if(s.chance(1, 3)) f.vd = s.coin() ? "true" : "false"; proto.push_back(f); }
    bool mats = ovl || s.chance(1, 2); Mats mp; bool st = s.coin();
    if(st && s.chance(3, 4)) S.cycle = (int)s.range(0, 2000); if(st && s.coin()) S.time = (double)s.range(0, 100) / 4;
    bool units = s.chance(1, 4), labels = s.chance(1, 4); bool cover = true;
    for(int i = 0; i < nd; i++)
    {
        S.d.emplace_back(); Dom &D = S.d.back(); D.m = gen_mesh(s, g); Mesh &m = D.m; if(m.cs == "uniform" && !m.has_org && !m.has_sp) { m.has_org = true; m.axes = {"x", "y"}; if(m.dim == 3) m.axes.push_back("z"); }   // (logical axes are refused)
        if(m.topo == "points" && m.cs != "explicit") { m.cs = "explicit"; m.axes = {"x", "y"}; if(m.dim == 3) m.axes.push_back("z"); } if(cyl && m.cs != "uniform" && m.dim == 2 && m.topo != "points") m.axes = {"z", "r"};
        S.keep.emplace_back(); Node &n = S.keep.back(); NodeOpts o; o.any_int = false; o.layouts = true; int ct = s.pick(o.ctypes);
        put_coordset(s, n["coordsets/coords"], m, o, &S.A, ct); put_topo(s, n["topologies/topo"], m, o, &S.A, DataType::INT32_ID); if(m.topo != "unstructured" && m.topo != "points" && s.chance(1, 4)) { static const char *L[] = {"i", "j", "k"}; int it = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID}); for(int a = 0; a < m.dim; a++) { D.org.push_back((int)s.range(0, 5)); put(s, n["topologies/topo/elements/origin"][L[a]], num(it, VI(1, D.org[a])), &S.A); } }
        if(m.cs != "uniform" && m.topo != "points") { if(units) { D.has_units = true; for(auto &a : m.axes) n["coordsets/coords/units"][a] = "u" + a; } if(labels) { D.has_labels = true; for(auto &a : m.axes) n["coordsets/coords/labels"][a] = "L " + a; } }
        if(S.cycle >= 0) n["state/cycle"] = S.cycle; if(S.time >= 0) n["state/time"] = S.time; if(s.coin() && nd == 1) n["state/domain_id"] = 0; else if(nd > 1 && s.coin()) n["state/domain_id"] = i;
        if(mats && m.topo != "points" && (ovl || i == 0 || s.chance(4, 5)))
        {
            D.has_mat = true; if(mp.names.empty()) mp = gen_mats(s, m.nel()); Mats x = gen_mats(s, m.nel()); x.names = mp.names; x.ids = mp.ids; for(auto &f : x.vf) { std::map<int, double> y; double lost = 0; for(auto &p : f) if(p.first < (int)mp.names.size()) y[p.first] = p.second; else lost += p.second; if(y.empty()) y[0] = lost; else y.begin()->second += lost; f = y; } D.mats = x;
        }
        int flavour = (int)s.range(0, 3); if(D.has_mat) { put_matset(s, n["matsets/mat"], D.mats, flavour, "topo", &S.A, DataType::INT32_ID, DataType::FLOAT64_ID, true); }
        for(auto &p : proto)
        {
            if(!(i == 0 || s.chance(5, 6))) { cover = false; continue; } Fld f = p; if(m.topo == "points") f.vertex = s.coin(); int cnt = f.vertex ? m.npts() : m.nel(); static const char *CN[] = {"u", "v", "w"};
            Node &fn = n["fields"][f.name]; fn["association"] = f.vertex ? "vertex" : "element"; fn["topology"] = "topo"; if(!f.units.empty()) fn["units"] = f.units; if(!f.label.empty()) fn["label"] = f.label; if(!f.vd.empty()) fn["volume_dependent"] = f.vd;
            for(size_t k = 0; k < f.comp.size(); k++) { for(int e = 0; e < cnt; e++) f.comp[k].push_back(sval(s, f.id)); put(s, f.comp.size() == 1 ? fn["values"] : fn["values"][CN[k]], num(f.id, f.comp[k]), &S.A); }
            if(D.has_mat && !f.vertex && f.comp.size() == 1 && f.id == DataType::FLOAT64_ID && s.coin())
            {
                f.mixed = true; fn["matset"] = "mat"; f.mv.resize(m.nel()); for(int e = 0; e < m.nel(); e++) for(auto &x : D.mats.vf[e]) f.mv[e][x.first] = D.mats.vf[e].size() == 1 ? f.comp[0][e] : sval(s, f.id);
                put_matvals(s, fn["matset_values"], D.mats, flavour, [&](int e, int k) { return f.mv[e].at(k); }, 0.0, f.id, &S.A);
            }
            D.f.push_back(f);
        }
        Node info; CHECK(conduit::blueprint::mesh::verify(n, info), "harness: generated mesh does not verify: " << info.to_json().substr(0, 600));
    }
    if(nd == 1 && s.coin()) S.mesh.set_external(S.keep.front()); else { bool list = s.coin(); int i = 0; for(auto &n : S.keep) { if(list) S.mesh.append().set_external(n); else S.mesh["d" + std::to_string(i)].set_external(n); i++; } }
    for(auto &D : S.d) c.desc << D.m.describe() << "\n"; c.desc << S.mesh.to_yaml().substr(0, 1500) << "\n"; if(nd > 1 && !cover) c.label("domain lacks a field");
}
// silo keeps letters, digits and '_'
static std::string safe(std::string n) { for(auto &ch : n) if(!isalnum((unsigned char)ch) && ch != '_') ch = '_'; return n; }
static std::string fmt(const std::vector<double> &v) { std::ostringstream o; for(double x : v) o << " " << x; return o.str(); }

static void check_domain(const Dom &D, const Node &r, const std::string &tn, const std::string &pre, const std::string &mat_name, const Saved &S, int dom, const std::string &style, bool ovl)
{
    const Mesh &m = D.m; std::string at = "domain " + std::to_string(dom);
    CHECK(r.has_path("topologies/" + tn), at << ": no topology " << tn << ": " << r.to_json().substr(0, 500)); const Node &t = r["topologies"][tn]; std::string cn = t["coordset"].as_string(); CHECK(r.has_path("coordsets/" + cn), at << ": no coordset " << cn); const Node &cs = r["coordsets"][cn];
    CHECK_EQ(r["topologies"].number_of_children(), (index_t)1, at << ": topologies read"); CHECK_EQ(r["coordsets"].number_of_children(), (index_t)1, at << ": coordsets read");
    { Node info; CHECK(conduit::blueprint::mesh::verify(r, info), at << ": what was read does not verify: " << info.to_json().substr(0, 500)); }
    std::vector<P3> pts = m.pts; std::vector<Elem> el = m.el;
    std::string want_type = m.topo == "uniform" ? "rectilinear" : m.topo;
    CHECK_EQ(t["type"].as_string(), want_type, at << ": topology type");
    check_points(read_points(cs), pts, 0, (at + ": points").c_str()); check_elems(read_elems(t, cs), el, (at + ": elements").c_str());
    if(m.topo == "unstructured") CHECK_EQ(t["elements/shape"].as_string(), m.shape, at << ": shape");
    if(m.cs != "uniform" && m.topo != "points") { std::vector<std::string> ax = cs["values"].child_names(); CHECK_EQ(ax.size(), m.axes.size(), at << ": axes"); for(size_t i = 0; i < ax.size(); i++) CHECK_EQ(ax[i], m.axes[i], at << ": axis"); }
    { static const char *L[] = {"i", "j", "k"}; if(m.topo != "unstructured" && m.topo != "points") for(int a = 0; a < m.dim; a++) { int g = t.has_path("elements/origin") && t["elements/origin"].has_child(L[a]) ? t["elements/origin"][L[a]].to_int() : 0; CHECK_EQ(g, D.org.empty() ? 0 : D.org[a], at << ": logical origin along " << L[a]); } }
    if(D.has_units) for(auto &a : m.axes) { CHECK(cs.has_path("units/" + a), at << ": units lost"); CHECK_EQ(cs["units"][a].as_string(), "u" + a, at << ": units"); }
    if(D.has_labels) for(auto &a : m.axes) { CHECK(cs.has_path("labels/" + a), at << ": labels lost"); CHECK_EQ(cs["labels"][a].as_string(), "L " + a, at << ": labels"); }
    CHECK_EQ(r["state/domain_id"].to_int(), dom, at << ": domain id"); if(S.cycle >= 0 && !S.pdb) CHECK_EQ(r["state/cycle"].to_int(), S.cycle, at << ": cycle"); if(S.time >= 0 && !S.pdb) { CHECK(r.has_path("state/time"), at << ": time lost"); CHECK_EQ(r["state/time"].to_double(), S.time, at << ": time"); }
    // materials
    bool any = D.has_mat; CHECK_EQ((int)r.has_path("matsets"), (int)any, at << ": matsets");
    if(any)
    {
        CHECK_EQ(r["matsets"].number_of_children(), (index_t)1, at << ": matsets read"); const Node &ms = r["matsets"].child(0); CHECK_EQ(r["matsets"].child_names()[0], mat_name, at << ": matset name"); CHECK_EQ(ms["topology"].as_string(), tn, at << ": matset topology");
        Node full; conduit::blueprint::mesh::matset::to_multi_buffer_full(ms, full); const Mats &M0 = D.mats;
        for(size_t k = 0; k < M0.names.size(); k++)
        {
            bool used = false; for(auto &f : M0.vf) used = used || f.count((int)k); if(!used) continue; CHECK(full["volume_fractions"].has_child(M0.names[k]), at << ": material lost: " << M0.names[k] << " in " << ms.to_json().substr(0, 700)); std::vector<double> v = dvals(full["volume_fractions"][M0.names[k]]);
            CHECK_EQ((int)v.size(), m.nel(), at << ": length of volume fractions"); for(int e = 0; e < m.nel(); e++) { double w = M0.has(e, (int)k) ? M0.vf[e].at((int)k) : 0; CHECK(std::fabs(v[e] - w) < 1e-12, at << ": volume fraction of " << M0.names[k] << " in element " << e << ": " << v[e] << ", saved " << w); }
        }
        for(auto &nm : full["volume_fractions"].child_names()) CHECK(std::find(M0.names.begin(), M0.names.end(), nm) != M0.names.end(), at << ": new material " << nm);
        if(ms.has_child("material_map")) for(size_t k = 0; k < M0.names.size(); k++) if(ms["material_map"].has_child(M0.names[k])) CHECK_EQ(ms["material_map"][M0.names[k]].to_int(), M0.ids[k], at << ": number of material " << M0.names[k]);
        if(style == "multi_buffer_full") CHECK(conduit::blueprint::mesh::matset::is_multi_buffer(ms) && conduit::blueprint::mesh::matset::is_element_dominant(ms), at << ": matset style"); else if(style == "multi_buffer_by_material") CHECK(conduit::blueprint::mesh::matset::is_multi_buffer(ms) && conduit::blueprint::mesh::matset::is_material_dominant(ms), at << ": matset style"); else CHECK(conduit::blueprint::mesh::matset::is_uni_buffer(ms) && conduit::blueprint::mesh::matset::is_element_dominant(ms), at << ": matset style");
    }
    // fields
    size_t nf = 0; 
    for(auto &f : D.f)
    {
        bool split = ovl && f.comp.size() > 1; nf += split ? f.comp.size() : 1; static const char *CN[] = {"u", "v", "w"};
        for(size_t k = 0; k < f.comp.size(); k++)
        {
            std::string fnm = pre + safe(split ? f.name + "_" + CN[k] : f.name); CHECK(r.has_path("fields") && r["fields"].has_child(fnm), at << ": lost field " << fnm << " of " << (r.has_path("fields") ? r["fields"].schema().to_json().substr(0, 600) : "none")); const Node &rf = r["fields"][fnm];
            CHECK_EQ(rf["topology"].as_string(), tn, at << ": topology of " << fnm); if(m.topo != "points") CHECK_EQ(rf["association"].as_string(), std::string(f.vertex ? "vertex" : "element"), at << ": association of " << fnm);
            const Node &v = f.comp.size() == 1 || split ? rf["values"] : rf["values"].child((index_t)k); if(f.comp.size() > 1 && !split) CHECK_EQ((size_t)rf["values"].number_of_children(), f.comp.size(), at << ": components of " << fnm);
            if(!ovl) CHECK_EQ((int)v.dtype().id(), f.id, at << ": type of " << fnm << ": " << v.dtype().name()); CHECK_EQ((size_t)v.dtype().number_of_elements(), f.comp[k].size(), at << ": length of " << fnm); CHECK(dvals(v) == f.comp[k], at << ": values of " << fnm << ":" << fmt(dvals(v)) << ", saved" << fmt(f.comp[k]));
            if(!f.units.empty()) { CHECK(rf.has_child("units"), at << ": units lost of " << fnm); CHECK_EQ(rf["units"].as_string(), f.units, at << ": units of " << fnm); } if(!f.label.empty()) { CHECK(rf.has_child("label"), at << ": label lost of " << fnm); CHECK_EQ(rf["label"].as_string(), f.label, at << ": label of " << fnm); }
            if(ovl) { CHECK(rf.has_child("volume_dependent"), at << ": volume_dependent lost of " << fnm); CHECK_EQ(rf["volume_dependent"].as_string(), std::string(f.vd == "true" ? "true" : "false"), at << ": volume_dependent of " << fnm); }
            if(f.mixed)
            {
                bool mixed_any = false; for(auto &e : f.mv) mixed_any = mixed_any || e.size() > 1;
                if(!mixed_any && !rf.has_child("matset_values")) continue;
                CHECK(rf.has_child("matset_values") && rf.has_child("matset"), at << ": matset_values lost of " << fnm); CHECK_EQ(rf["matset"].as_string(), mat_name, at << ": matset of " << fnm);
                Node full, ff; conduit::blueprint::mesh::field::to_multi_buffer_full(r["matsets"].child(0), rf, "m", ff); const Mats &M0 = D.mats;
                for(size_t q = 0; q < M0.names.size(); q++) { if(!ff["matset_values"].has_child(M0.names[q])) { for(auto &e : f.mv) CHECK(!e.count((int)q), at << ": matset_values of material " << M0.names[q] << " lost"); continue; } std::vector<double> v2 = dvals(ff["matset_values"][M0.names[q]]); for(int e = 0; e < m.nel(); e++) if(f.mv[e].count((int)q)) CHECK_EQ(v2[e], f.mv[e].at((int)q), at << ": matset_values of " << M0.names[q] << " in element " << e); }
            }
        }
    }
    CHECK_EQ(r.has_path("fields") ? (size_t)r["fields"].number_of_children() : (size_t)0, nf, at << ": fields read");
}
static std::string d6(int i) { char b[40]; snprintf(b, sizeof b, "%06d", i); return b; }
static void trip(Source &s, pbt::Ctx &c, bool ovl)
{
    Saved S; gen_saved(s, c, S, ovl); M before = model::read(S.mesh); Node opts; std::string name = "mesh", style, suffix, ext = "root"; std::string dir = c.scratch + "/o", path = dir + "/" + s.pick<std::string>({"out", "my.out", "a b"}); mkdir(dir.c_str(), 0755);
    if(ovl) { opts["file_style"] = style = "overlink"; if(s.coin()) opts["ovl_topo_name"] = "topo"; }
    else { if(s.coin()) { style = s.pick<std::string>({"default", "root_only", "multi_file"}); opts["file_style"] = style; } if(s.coin()) { name = s.pick<std::string>({"m", "my_mesh"}); opts["mesh_name"] = name; } if(s.coin()) { suffix = s.pick<std::string>({"default", "cycle", "none"}); if(suffix == "cycle" && S.cycle < 0) suffix = "none"; opts["suffix"] = suffix; } if(s.coin()) { std::string e = s.pick<std::string>({"default", "root", "silo"}); opts["root_file_ext"] = e; if(e != "default") ext = e; } }
    bool bare0 = !ovl && s.chance(1, 8); if(bare0) { opts.reset(); name = "mesh"; style = suffix = ""; ext = "root"; }
    if(!bare0 && s.coin()) opts["number_of_files"] = (int)s.range(-1, 4); if(!bare0 && s.coin()) { std::string t = s.pick<std::string>({"default", "hdf5"}); S.pdb = t == "pdb"; opts["silo_type"] = t; }
    if(!bare0 && s.chance(1, 4)) opts["truncate"] = "true";
    c.desc << "options " << opts.to_json() << "\n"; for(auto &D : S.d) c.label(D.m.topo == "unstructured" ? D.m.shape : D.m.topo); if(S.d.size() > 1) c.label("domains"); c.nontrivial(S.d.size() > 1 || !S.d[0].f.empty());
    bool bare = opts.number_of_children() == 0; if(s.coin()) { if(bare) ds::save_mesh(S.mesh, path); else ds::save_mesh(S.mesh, path, opts); } else { if(bare) ds::write_mesh(S.mesh, path); else ds::write_mesh(S.mesh, path, opts); }
    CHECK(model::read(S.mesh) == before, "save_mesh changed the mesh");
    std::string root; if(ovl) root = path + "/OvlTop.silo"; else root = path + (S.cycle >= 0 && suffix != "none" ? ".cycle_" + d6(S.cycle) : std::string()) + "." + ext;
    CHECK(access(root.c_str(), R_OK) == 0, "no root file " << root);
    Node r, ro; std::string mstyle; if(s.coin()) { mstyle = s.pick<std::string>({"default", "multi_buffer_full", "sparse_by_element", "multi_buffer_by_material"}); ro["matset_style"] = mstyle; } std::string tn = ovl ? "MMESH" : name + "_topo", pre = ovl ? "" : name + "_", mt = ovl ? "MMATERIAL" : name + "_mat"; if(s.chance(1, 4)) ro["mesh_name"] = tn;
    bool rb = ro.number_of_children() == 0; if(s.coin()) { r["junk"] = 1; if(rb) ds::load_mesh(root, r); else ds::load_mesh(root, ro, r); } else if(rb) ds::read_mesh(root, r); else ds::read_mesh(root, ro, r);
    CHECK_EQ((size_t)r.number_of_children(), S.d.size(), "domains read: " << r.schema().to_json().substr(0, 300));
    for(size_t i = 0; i < S.d.size(); i++) { std::string dn = "domain_" + d6((int)i); CHECK(r.has_child(dn), "no " << dn); check_domain(S.d[i], r[dn], tn, pre, mt, S, (int)i, mstyle, ovl); }
    CHECK(system(("rm -rf '" + dir + "'").c_str()) == 0, "harness: scratch");
}
PBT(silo, 2400, 40000) { trip(s, c, false); }
PBT(overlink, 1200, 20000) { trip(s, c, true); }
PBT_MAIN()

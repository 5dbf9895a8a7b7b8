// Whole mesh domains: a mesh model plus state, fields, material sets, species sets,
// adjacency sets and nesting sets.
#ifndef VDOMAIN_HPP
#define VDOMAIN_HPP
#include "mesh.hpp"
namespace vmesh {
// volume fractions per element: material index -> fraction (multiples of 1/16, exact)
struct Mats
{
    std::vector<std::string> names; VI ids; std::vector<std::map<int, double> > vf;
    bool has(int e, int m) const { return vf[e].count(m) != 0; }
};
inline Mats gen_mats(Source &s, int nel, bool map_ids = true)
{
    Mats m; int n = 1 + s.len(4); static const std::vector<std::string> N = {"mat_a", "air", "steel", "m3", "zz"};
    for(int i = 0; i < n; i++) { m.names.push_back(N[i]); m.ids.push_back(i); }
    if(map_ids && s.chance(1, 3)) { std::set<int> used; for(int i = 0; i < n; i++) { int v = (int)s.range(0, 40); while(used.count(v)) v++; used.insert(v); m.ids[i] = v; } }
    for(int e = 0; e < nel; e++)
    {
        std::map<int, double> f; int k = 1 + (s.chance(1, 2) ? (int)s.range(0, n - 1) : 0); std::set<int> pick; for(int t = 0; t < k; t++) pick.insert((int)s.range(0, n - 1));
        int left = 16; size_t i = 0; for(int p : pick) { i++; int room = left - (int)(pick.size() - i); int v = i == pick.size() ? left : 1 + (int)s.range(0, room - 1); f[p] = v / 16.0; left -= v; }
        m.vf.push_back(f);
    }
    return m;
}
inline int total_entries(const Mats &m) { int t = 0; for(auto &f : m.vf) t += (int)f.size(); return t; }
enum { MULTI_ELEM = 0, UNI_ELEM = 1, MULTI_MAT = 2, UNI_MAT = 3 };
// order of the entries of the buffers of each flavour: (element, material)
inline std::vector<std::pair<int, int> > uni_order(Source &s, const Mats &m, int flavour, bool shuffle)
{
    std::vector<std::pair<int, int> > o;
    if(flavour == UNI_ELEM) for(size_t e = 0; e < m.vf.size(); e++) for(auto &x : m.vf[e]) o.push_back(std::make_pair((int)e, x.first));
    else for(size_t k = 0; k < m.names.size(); k++) for(size_t e = 0; e < m.vf.size(); e++) if(m.vf[e].count((int)k)) o.push_back(std::make_pair((int)e, (int)k));
    (void)s; (void)shuffle; return o;
}
// v(e, k): value of material k in element e
typedef std::function<double(int, int)> MatVal;
inline void put_matvals(Source &s, Node &out, const Mats &m, int flavour, const MatVal &v, double absent, int type, Arena *A)
{
    if(flavour == MULTI_ELEM) for(size_t k = 0; k < m.names.size(); k++) { std::vector<double> a; for(size_t e = 0; e < m.vf.size(); e++) a.push_back(m.has((int)e, (int)k) ? v((int)e, (int)k) : absent); put(s, out[m.names[k]], num(type, a), A); }
    else if(flavour == MULTI_MAT) for(size_t k = 0; k < m.names.size(); k++) { std::vector<double> a; for(size_t e = 0; e < m.vf.size(); e++) if(m.has((int)e, (int)k)) a.push_back(v((int)e, (int)k)); put(s, out[m.names[k]], num(type, a), A); }
    else { std::vector<double> a; for(auto &p : uni_order(s, m, flavour, false)) a.push_back(v(p.first, p.second)); put(s, out, num(type, a), A); }
}
inline void put_matset(Source &s, Node &n, const Mats &m, int flavour, const std::string &topo, Arena *A, int itype = DataType::INT32_ID, int ftype = DataType::FLOAT64_ID, bool force_map = false)
{
    n["topology"] = topo;
    if(flavour == UNI_ELEM || flavour == UNI_MAT || force_map || s.coin()) for(size_t k = 0; k < m.names.size(); k++) n["material_map"][m.names[k]].set((int32)m.ids[k]);
    put_matvals(s, n["volume_fractions"], m, flavour, [&](int e, int k) { return m.vf[e].at(k); }, 0.0, ftype, A);
    if(flavour == MULTI_MAT) for(size_t k = 0; k < m.names.size(); k++) { VI a; for(size_t e = 0; e < m.vf.size(); e++) if(m.has((int)e, (int)k)) a.push_back((int)e); put(s, n["element_ids"][m.names[k]], num(itype, a), A); }
    if(flavour == UNI_ELEM) { VI ids, sz; for(auto &p : uni_order(s, m, flavour, false)) ids.push_back(m.ids[p.second]); for(auto &f : m.vf) sz.push_back((int)f.size()); put(s, n["material_ids"], num(itype, ids), A); put(s, n["sizes"], num(itype, sz), A); put(s, n["offsets"], num(itype, prefix(sz)), A); }
    if(flavour == UNI_MAT) { VI ids, el; for(auto &p : uni_order(s, m, flavour, false)) { ids.push_back(m.ids[p.second]); el.push_back(p.first); } put(s, n["material_ids"], num(itype, ids), A); put(s, n["element_ids"], num(itype, el), A); }
}
struct DomOpts { GenMesh g; NodeOpts o; bool mats = true, specs = true, sets = true, gf = true, mixed = true, multi_shape = true, layouts = true; int max_topos = 2; bool nonstd = true; };
// A valid domain; returns the mesh models of its topologies (not for mixed ones).
inline void gen_domain(Source &s, Node &n, Arena *A, const DomOpts &d, int dom_id = -1)
{
    if(!d.layouts) A = NULL;
    if(s.coin()) { if(s.coin()) n["state/cycle"] = (int)s.range(0, 99); if(s.coin()) n["state/time"] = (double)s.range(0, 99) / 4; n["state/domain_id"] = dom_id >= 0 ? dom_id : (int)s.range(0, 5); }
    int nt = 1 + (d.max_topos > 1 ? s.len(d.max_topos - 1) : 0); std::vector<std::string> topos; std::map<std::string, std::pair<int, int> > size; std::map<std::string, int> tdim;
    for(int i = 0; i < nt; i++)
    {
        NodeOpts o = d.o; if(i) { o.csname = d.o.csname + std::to_string(i); o.toponame = d.o.toponame + std::to_string(i); }
        Mesh m = gen_mesh(s, d.g); put_mesh(s, n, m, o, A); topos.push_back(o.toponame); size[o.toponame] = std::make_pair(m.npts(), m.nel()); tdim[o.toponame] = m.dim;
        Node &t = n["topologies"][o.toponame];
        if(d.mixed && m.topo == "unstructured" && s.chance(1, 4))
        {   // the same elements as a mixed topology
            VI shp, sz, conn; std::map<std::string, int> ids; static const std::vector<std::string> ALL = {"point", "line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral"};
            if(m.shape != "polyhedral")
            {
                Node e; e["shape"] = "mixed"; ids[m.shape] = (int)s.range(1, 30); if(s.coin()) { std::string x = s.pick(ALL); if(x != m.shape) ids[x] = 31 + (int)s.range(0, 5); }
                int it = s.pick<int>({DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID});
                for(auto &x : ids) model::build_plain(e["shape_map"][x.first], num(it, VI(1, x.second)));
                for(auto &el : m.el) { shp.push_back(ids[m.shape]); sz.push_back((int)el.v.size()); conn.insert(conn.end(), el.v.begin(), el.v.end()); }
                put(s, e["shapes"], num(it, shp), A); put(s, e["connectivity"], num(DataType::INT32_ID, conn), A); put(s, e["sizes"], num(DataType::INT32_ID, sz), A); put(s, e["offsets"], num(DataType::INT32_ID, prefix(sz)), A);
                t["elements"].reset(); t["elements"].set(e);
            }
        }
        else if(d.multi_shape && m.topo == "unstructured" && s.chance(1, 6))
        {   // older form: one child per shape
            Node e; e.set(t["elements"]); t["elements"].reset(); std::string nm = s.pick<std::string>({"part", m.shape}); t["elements"][nm].set(e); if(m.shape == "polyhedral") { Node u; u.set(t["subelements"]); t["subelements"].reset(); t["subelements"][nm].set(u); }
        }
    }
    static const std::vector<int> FT = {DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID};
    std::vector<std::string> msets; std::map<std::string, std::string> mtopo; std::map<std::string, Mats> mm; std::map<std::string, int> mfl;
    if(d.mats && s.coin()) for(int i = 0, k = 1 + (int)s.range(0, 1); i < k; i++)
    {
        std::string t = s.pick(topos), nm = i ? "mats1" : "mats"; Mats m = gen_mats(s, size[t].second); int fl = (int)s.range(0, 3); put_matset(s, n["matsets"][nm], m, fl, t, A, gen_itype(s, true), s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID}));
        msets.push_back(nm); mtopo[nm] = t; mm[nm] = m; mfl[nm] = fl;
        if(d.specs && s.coin())
        {
            Node &sp = n["specsets"]["spec" + std::to_string(i)]; sp["matset"] = nm; for(auto &name : m.names) { int ns = 1 + (int)s.range(0, 2); for(int q = 0; q < ns; q++) put(s, sp["matset_values"][name]["s" + std::to_string(q)], num(DataType::FLOAT64_ID, std::vector<double>(size[t].second, 1.0 / ns)), A); } if(s.coin()) sp["volume_dependent"] = s.pick<std::string>({"true", "false"});
        }
    }
    int nf = s.len(3);
    for(int i = 0; i < nf; i++)
    {
        std::string nm = "f" + std::to_string(i); Node &f = n["fields"][nm]; std::string t = s.pick(topos); bool vertex = s.coin(); int len = vertex ? size[t].first : size[t].second; int ty = s.pick(FT); auto vals = [&]() { std::vector<double> v; for(int q = 0; q < len; q++) v.push_back((double)s.range(0, 20)); return num(ty, v); };
        int how = msets.empty() ? 0 : (int)s.weighted({3, 1, 1}); if(d.nonstd && s.chance(1, 5)) f["basis"] = s.pick<std::string>({"H1_3D_P1", "L2", ""}); if(!f.has_child("basis") || s.coin()) f["association"] = how && !vertex ? "element" : vertex ? "vertex" : "element";
        if(how != 2) { f["topology"] = t; if(s.chance(1, 3)) { int nc = 1 + (int)s.range(0, 2); static const char *C[3] = {"u", "v", "w"}; for(int q = 0; q < nc; q++) put(s, f["values"][C[q]], vals(), A); } else put(s, f["values"], vals(), A); }
        if(how) { std::string ms = s.pick(msets); f["matset"] = ms; if(how == 1) { f["topology"] = mtopo[ms]; } const Mats &m = mm[ms]; int fl = mfl[ms]; bool vec = s.chance(1, 4) && (fl == MULTI_ELEM || fl == MULTI_MAT);
            if(vec) { Node a; put_matvals(s, a, m, fl, [&](int e, int k) { return e + k; }, 0, ty, NULL); for(auto &mn : m.names) for(auto cn : {"u", "v"}) f["matset_values"][mn][cn].set(a[mn]); }
            else put_matvals(s, f["matset_values"], m, fl, [&](int e, int k) { return 10 * e + k; }, 0, ty, A); }
        if(s.chance(1, 4)) f["volume_dependent"] = s.pick<std::string>({"true", "false"});
        if(d.gf && s.chance(1, 8)) n["topologies"][s.pick(topos)]["grid_function"] = nm;
    }
    static const char *L[3] = {"i", "j", "k"};
    if(d.sets && s.chance(1, 3))
    {
        std::string t = s.pick(topos); Node &a = n["adjsets/adj"]; a["topology"] = t; a["association"] = s.pick<std::string>({"vertex", "element"}); int k = s.len(2); if(k == 0) a["groups"].set(DataType::object());
        for(int i = 0; i < k; i++) { Node &g = a["groups"]["group_" + std::to_string(i)]; put(s, g["neighbors"], num(gen_itype(s, true), VI(1, i + 1)), A);
            if(s.coin()) put(s, g["values"], num(gen_itype(s, true), VI(1 + s.len(2), 0)), A);
            else { int dm = 1 + (int)s.range(0, 2); for(int w = 0; w < 1 + s.len(1); w++) { Node &wn = g["windows"]["window_" + std::to_string(w)]; for(int x = 0; x < dm; x++) { wn["origin"][L[x]] = 0; wn["dims"][L[x]] = 2; wn["ratio"][L[x]] = 1; } } if(s.coin()) put(s, g["orientation"], num(DataType::INT32_ID, VI{0, 1, 2}), A); } }
    }
    if(d.sets && s.chance(1, 4))
    {
        Node &a = n["nestsets/nest"]; a["topology"] = s.pick(topos); a["association"] = s.pick<std::string>({"vertex", "element"}); int k = 1 + s.len(1);
        for(int i = 0; i < k; i++) { Node &w = a["windows"]["w" + std::to_string(i)]; w["domain_id"] = i; w["domain_type"] = s.pick<std::string>({"parent", "child"}); int dm = 1 + (int)s.range(0, 2); bool o = s.coin(), e = s.coin(); for(int x = 0; x < dm; x++) { w["ratio"][L[x]] = 2; if(o) w["origin"][L[x]] = 0; if(e) w["dims"][L[x]] = 3; } }
    }
}
} // namespace vmesh
#endif

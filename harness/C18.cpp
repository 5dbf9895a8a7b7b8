// Coordinate set and topology conversions keep the mesh.
#include "pbt_main.hpp"
#include "mesh.hpp"
using namespace vmesh; using namespace model; namespace bm = conduit::blueprint::mesh; namespace bu = conduit::blueprint::mesh::utils;

// every query and conversion of a coordset
PBT(coordsets, 60000, 3000000)
{
    GenMesh g; g.max_ne = 5; Mesh m = gen_mesh(s, g); NodeOpts o; o.ctypes = {DataType::FLOAT64_ID, DataType::FLOAT32_ID}; if(s.chance(1, 8)) { o.ctypes = {DataType::INT32_ID, DataType::INT64_ID, DataType::INT16_ID, DataType::UINT64_ID}; for(auto &p : m.pts) for(int a = 0; a < 3; a++) p[a] = std::fabs(std::floor(p[a])); for(int a = 0; a < 3; a++) { m.org[a] = std::fabs(std::floor(m.org[a])); m.sp[a] = std::ceil(m.sp[a]); } if(m.cs == "rectilinear" || m.cs == "uniform") { m.pts.clear(); for(int a = 0; a < m.dim; a++) { for(auto &x : m.ax[a]) x = std::fabs(std::floor(x)); if(m.cs == "uniform") for(int i = 0; i < m.np[a]; i++) m.ax[a][i] = m.org[a] + i * m.sp[a]; } for(int k = 0; k < m.np[2]; k++) for(int j = 0; j < m.np[1]; j++) for(int i = 0; i < m.np[0]; i++) { P3 p = {0, 0, 0}; int ix[3] = {i, j, k}; for(int a = 0; a < m.dim; a++) p[a] = m.ax[a][ix[a]]; m.pts.push_back(p); } } }
    Arena A; Node n; put_mesh(s, n, m, o, &A); M before = model::read(n);
    if(c.want_desc) { c.desc << m.describe() << " " << n["coordsets"].to_json(); } c.nontrivial(m.npts() >= 4 && m.dim >= 2);
    const Node &cs = n["coordsets/coords"];
    verify_mesh(n, "generated");
    CHECK_EQ(bm::coordset::dims(cs), (index_t)m.dim, "coordset::dims"); CHECK_EQ(bm::coordset::length(cs), (index_t)m.npts(), "coordset::length");
    std::vector<std::string> ax = bu::coordset::axes(cs); CHECK(ax == m.axes, "coordset::axes");
    CHECK_EQ(bu::coordset::coordsys(cs), std::string(m.axes[0] == "z" ? "cylindrical" : m.axes[0] == "r" ? "spherical" : m.axes[0] == "i" ? "logical" : "cartesian"), "coordsys");
    index_t ld[3]; bu::coordset::logical_dims(cs, ld, 3);
    if(m.cs == "explicit") { CHECK_EQ(ld[0], (index_t)m.npts(), "logical_dims of explicit"); CHECK(ld[1] == 1 && ld[2] == 1, "logical_dims of explicit"); } else for(int a = 0; a < 3; a++) CHECK_EQ(ld[a], (index_t)m.np[a], "logical_dims " << a);
    std::vector<float64> ex = bu::coordset::extents(cs); CHECK_EQ(ex.size(), (size_t)m.dim * 2, "extents");
    for(int a = 0; a < m.dim; a++) { double lo = 1e300, hi = -1e300; for(auto &p : m.pts) { lo = std::min(lo, p[a]); hi = std::max(hi, p[a]); } CHECK_EQ(ex[2 * a], lo, "extents min " << a); CHECK_EQ(ex[2 * a + 1], hi, "extents max " << a); }
    if(m.cs == "uniform") { std::vector<double> sp = bu::coordset::uniform::spacing(cs); for(int a = 0; a < m.dim; a++) CHECK_EQ(sp[a], m.sp[a], "uniform::spacing"); }
    if(m.cs == "explicit") { int i = (int)s.range(0, m.npts() - 1); std::vector<double> q = bu::coordset::_explicit::coords(cs, i); for(int a = 0; a < m.dim; a++) CHECK_EQ(q[a], m.pts[i][a], "coords"); }
    Node d; if(s.coin()) d["junk"] = 1;
    bm::coordset::to_explicit(cs, d); CHECK_EQ(d["type"].as_string(), std::string("explicit"), "to_explicit"); check_points(read_points(d), m.pts, 0, "to_explicit"); CHECK(bu::coordset::axes(d) == m.axes, "axes after to_explicit");
    if(m.cs == "uniform") { Node r; if(s.coin()) r["junk"] = 1; bm::coordset::uniform::to_rectilinear(cs, r); Node info; CHECK(bm::coordset::rectilinear::verify(r, info), "to_rectilinear verifies"); check_points(read_points(r), m.pts, 0, "to_rectilinear"); CHECK(bu::coordset::axes(r) == m.axes, "axes"); Node e2; bm::coordset::rectilinear::to_explicit(r, e2); check_points(read_points(e2), m.pts, 0, "rectilinear to_explicit"); Node e3; bm::coordset::uniform::to_explicit(cs, e3); check_points(read_points(e3), m.pts, 0, "uniform to_explicit"); }
    A.check_gaps("conversion"); CHECK_NODE(n, before, "the source mesh");
}

// logical grids through every chain of conversions
PBT(grids, 60000, 3000000)
{
    GenMesh g; g.max_ne = 4; g.topos = {"uniform", "rectilinear", "structured"}; Mesh m = gen_mesh(s, g); NodeOpts o; Arena A; Node n; put_mesh(s, n, m, o, &A);
    if(s.coin()) n["state/domain_id"] = 3;
    if(c.want_desc) c.desc << m.describe() << " " << n.to_json(); c.nontrivial(m.nel() >= 2 && m.dim >= 2);
    CHECK_EQ(bm::topology::dims(n["topologies/topo"]), (index_t)m.dim, "topology::dims"); CHECK_EQ(bm::topology::length(n["topologies/topo"]), (index_t)m.nel(), "topology::length");
    index_t ld[3]; bu::topology::logical_dims(n["topologies/topo"], ld, 3); for(int a = 0; a < 3; a++) CHECK_EQ(ld[a], (index_t)m.ne[a], "logical_dims " << a);
    CHECK(&bu::topology::coordset(n["topologies/topo"]) == &n["coordsets/coords"], "topology::coordset");
    M before = model::read(n); std::string cur = m.topo, tn = "topo"; int step = 0; Node keep;
    while(cur != "unstructured")
    {
        std::string ct = "c" + std::to_string(step), tt = "t" + std::to_string(step); step++;
        const std::string src = tn; Node &td = n["topologies"][tt], &cd = n["coordsets"][ct]; const Node &ts = n["topologies"][src]; if(s.chance(1, 3)) { td["old"] = 1; cd["old"] = 2; }
        std::string next = cur == "uniform" ? s.pick<std::string>({"unstructured", "structured", "rectilinear"}) : cur == "rectilinear" ? s.pick<std::string>({"unstructured", "structured"}) : "unstructured";
        if(c.want_desc) c.desc << " -> " << next;
        if(cur == "uniform") { if(next == "rectilinear") bm::topology::uniform::to_rectilinear(ts, td, cd); else if(next == "structured") bm::topology::uniform::to_structured(ts, td, cd); else bm::topology::uniform::to_unstructured(ts, td, cd); }
        else if(cur == "rectilinear") { if(next == "structured") bm::topology::rectilinear::to_structured(ts, td, cd); else bm::topology::rectilinear::to_unstructured(ts, td, cd); }
        else bm::topology::structured::to_unstructured(ts, td, cd);
        CHECK_EQ(td["type"].as_string(), next, "type"); CHECK_EQ(td["coordset"].as_string(), ct, "coordset name");
        verify_mesh(n, "converted"); check_points(read_points(cd), m.pts, 0, "converted coordset"); check_elems(read_elems(td, cd), m.el, "converted topology");
        CHECK(bu::coordset::axes(cd) == m.axes, "axes after conversion");
        CHECK_EQ(bm::topology::length(td), (index_t)m.nel(), "length after conversion"); CHECK_EQ(bm::topology::dims(td), (index_t)m.dim, "dims after conversion");
        cur = next; tn = tt;
    }
    for(int i = 0; i < step; i++) { n["topologies"].remove_child("t" + std::to_string(i)); n["coordsets"].remove_child("c" + std::to_string(i)); }
    A.check_gaps("conversion"); CHECK_NODE(n, before, "the source mesh");
}

// unstructured topologies: polytopal form, offsets, element points, counts
PBT(polytopal, 50000, 2500000)
{
    GenMesh g; g.topos = {"unstructured"}; g.max_ne = 3; Mesh m = gen_mesh(s, g); NodeOpts o; o.offsets = s.chance(1, 3); Arena A; Node n; put_mesh(s, n, m, o, &A);
    if(c.want_desc) c.desc << m.describe() << " " << n["topologies"].to_json(); c.nontrivial(m.nel() >= 2);
    const Node &t = n["topologies/topo"], &cs = n["coordsets/coords"]; M before = model::read(n);
    CHECK_EQ(bm::topology::length(t), (index_t)m.nel(), "length"); CHECK_EQ(bm::topology::dims(t), (index_t)m.tdim(), "dims");
    for(int i = 0; i < m.nel(); i++)
    {
        std::vector<index_t> u = bu::topology::unstructured::points(t, i); VI w = verts_of(m.el[i]); CHECK(std::equal(u.begin(), u.end(), w.begin(), w.end()), "unique points of element " << i);
        if(m.shape != "polyhedral") { u = bu::topology::unstructured::points(t, i, false); CHECK(std::equal(u.begin(), u.end(), m.el[i].v.begin(), m.el[i].v.end()), "points of element " << i); }
        if(i > 3) break;
    }
    // offsets
    VI sz, ss; for(auto &e : m.el) sz.push_back(m.shape == "polyhedral" ? (int)e.faces.size() : (int)e.v.size()); for(auto &f : m.polyfaces) ss.push_back((int)f.size());
    Node o1, o2; bm::topology::unstructured::generate_offsets(t, o1); CHECK(ivals(o1) == prefix(sz), "generate_offsets"); bm::topology::unstructured::generate_offsets(t, o1, o2); CHECK(ivals(o1) == prefix(sz), "generate_offsets (elements)"); if(m.shape == "polyhedral") CHECK(ivals(o2) == prefix(ss), "generate_offsets (subelements)");
    Node mc; mc.set(n); Node &ti = mc["topologies/topo"]; bm::topology::unstructured::generate_offsets_inline(ti); CHECK(ivals(ti["elements/offsets"]) == prefix(sz), "generate_offsets_inline"); if(m.shape == "polyhedral") CHECK(ivals(ti["subelements/offsets"]) == prefix(ss), "generate_offsets_inline (subelements)"); check_elems(read_elems(ti, cs), m.el, "after generate_offsets_inline"); verify_mesh(mc, "with offsets"); if(!o.offsets) verify_mesh(n, "generated");
    if(m.tdim() >= 2)
    {
        Node &pd = mc["topologies/poly"]; if(s.coin()) pd["old"] = 1; if(s.coin()) bm::topology::unstructured::to_polygonal(t, pd); else bm::topology::unstructured::to_polytopal(t, pd);
        if(!o.offsets) verify_mesh(mc, "polytopal"); std::vector<Elem> P = read_elems(pd, cs); CHECK_EQ(pd["coordset"].as_string(), std::string("coords"), "coordset of the polytopal topology");
        CHECK_EQ(P.size(), m.el.size(), "number of polytopal elements"); bool wp = m.shape == "wedge" || m.shape == "pyramid";
        std::set<VI> uniq; if(m.tdim() == 3) { VI fs = ivals(pd["subelements/sizes"]); size_t tot = 0; std::set<VI> U; for(auto &e : P) for(auto &f : e.faces) U.insert(key(f)); CHECK_EQ(U.size(), fs.size(), "each distinct face is stored once"); (void)tot; }
        for(size_t i = 0; i < P.size(); i++)
        {
            if(m.tdim() == 2) { CHECK(P[i].v == m.el[i].v, "polygon " << i << " keeps its vertices"); continue; }
            CHECK(verts_of(P[i]) == verts_of(m.el[i]), "polyhedron " << i << " keeps its vertices");
            // closed surface: every edge is used by exactly two faces
            std::map<std::pair<int, int>, int> cnt; for(auto &f : P[i].faces) for(size_t k = 0; k < f.size(); k++) { int a = f[k], b = f[(k + 1) % f.size()]; cnt[std::make_pair(std::min(a, b), std::max(a, b))]++; }
            for(auto &x : cnt) CHECK_EQ(x.second, 2, "polyhedron " << i << ": faces at edge " << x.first.first << "-" << x.first.second);
            if(!wp) { std::vector<VI> a, b; for(auto &f : P[i].faces) a.push_back(key(f)); for(auto &f : faces_of(m.el[i])) b.push_back(key(f)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "faces of polyhedron " << i); }
        }
    }
    A.check_gaps("polytopal"); CHECK_NODE(n, before, "the source mesh");
}
PBT_MAIN()

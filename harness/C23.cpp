// One-to-many relations, multi-component arrays and n-dimensional indexing.
#include "pbt_main.hpp"
#include "mesh.hpp"
using namespace vmesh; using namespace model; namespace bp = conduit::blueprint; namespace o2m = conduit::blueprint::o2mrelation;

typedef std::vector<VI> Groups;       // data index of every (one, many)
struct Rel { Node n; Arena A; Groups g; int len = 0; std::vector<std::string> paths; std::vector<std::vector<double> > data; bool has_sizes, has_indices; VI sizes; };
static void gen_rel(Source &s, Rel &r, bool zero)
{
    int ones = 1 + s.len(7); r.has_sizes = !s.chance(1, 4); r.has_indices = s.coin(); VI sz, off; int slots = 0;
    if(r.has_sizes) { for(int i = 0; i < ones; i++) { sz.push_back(zero && s.chance(1, 4) ? 0 : (int)s.range(1, 4)); } VI ord; for(int i = 0; i < ones; i++) ord.push_back(i); if(s.coin()) for(int i = ones - 1; i > 0; i--) std::swap(ord[i], ord[s.range(0, i)]); off.resize(ones); bool gaps = s.coin(), share = s.chance(1, 6); for(int o : ord) { if(gaps) slots += (int)s.range(0, 2); off[o] = slots; if(share && slots > 0 && s.coin()) { off[o] = (int)s.range(0, slots - 1); slots = std::max(slots, off[o] + sz[o]); } else slots += sz[o]; } if(gaps) slots += (int)s.range(0, 2); }
    else { sz.assign(ones, 1); for(int i = 0; i < ones; i++) off.push_back(i); slots = ones; }
    r.len = slots; VI ind; if(r.has_indices) { r.len = slots + (int)s.range(0, 3); if(r.len == 0) r.len = 1; if(s.coin()) { VI p; for(int i = 0; i < r.len; i++) p.push_back(i); for(int i = r.len - 1; i > 0; i--) std::swap(p[i], p[s.range(0, i)]); ind.assign(p.begin(), p.begin() + slots); } else for(int i = 0; i < slots; i++) ind.push_back((int)s.range(0, r.len - 1)); if(slots == 0) r.has_indices = false; }
    if(r.len == 0) r.len = 1;
    for(int o = 0; o < ones; o++) { VI m; for(int k = 0; k < sz[o]; k++) m.push_back(r.has_indices ? ind[off[o] + k] : off[o] + k); r.g.push_back(m); }
    r.sizes = sz; int np = 1 + (int)s.range(0, 2); static const char *NM[4] = {"values", "data", "ids", "w"}; int meta_at = (int)s.range(0, np);
    auto meta = [&]() { int k = (int)s.range(0, 1); for(int i = 0; i < 3; i++) { int w = k ? 2 - i : i; int it = gen_itype(s, true); if(w == 0 && r.has_sizes) put(s, r.n["sizes"], num(it, sz), &r.A); if(w == 1 && r.has_sizes) put(s, r.n["offsets"], num(it, off), &r.A); if(w == 2 && r.has_indices) put(s, r.n["indices"], num(it, ind), &r.A); } if(s.coin()) r.n["note"] = "text"; };
    for(int p = 0; p < np; p++) { if(p == meta_at) meta(); std::vector<double> v; for(int i = 0; i < r.len; i++) v.push_back(1 + 10 * i + p); r.paths.push_back(NM[p]); r.data.push_back(v); put(s, r.n[NM[p]], num(s.pick<int>({DataType::FLOAT64_ID, DataType::INT32_ID, DataType::FLOAT32_ID, DataType::INT64_ID, DataType::UINT16_ID}), v), &r.A); } if(meta_at == np) meta();
}
static std::string str(const VI &v) { std::string r = "["; for(int x : v) r += std::to_string(x) + " "; return r + "]"; }
static void same_groups(const Node &n, const Rel &r, const char *what)
{
    o2m::O2MIndex ix(n); CHECK_EQ((size_t)ix.size(), r.g.size(), what << ": ones"); for(size_t o = 0; o < r.g.size(); o++) { CHECK_EQ((size_t)ix.size((index_t)o), r.g[o].size(), what << ": size of " << o); for(size_t k = 0; k < r.g[o].size(); k++) for(size_t p = 0; p < r.paths.size(); p++) { std::vector<double> d = dvals(n[r.paths[p]]); index_t at = ix.index((index_t)o, (index_t)k); CHECK(at >= 0 && at < (index_t)d.size(), what << ": index " << at); CHECK_EQ(d[(size_t)at], r.data[p][(size_t)r.g[o][k]], what << ": value of " << r.paths[p] << " one " << o << " many " << k); } }
}
PBT(relation, 30000, 5000000)
{
    Rel r; bool zero = s.chance(1, 3); gen_rel(s, r, zero); if(c.want_desc) c.desc << r.n.to_json(); c.nontrivial(r.g.size() >= 2 && (r.has_sizes || r.has_indices)); M before = model::read(r.n); Node info; CHECK(o2m::verify(r.n, info), "verifies"); CHECK(o2m::data_paths(r.n) == r.paths, "data paths");
    VI flat; for(auto &g : r.g) for(int x : g) flat.push_back(x);
    { o2m::O2MIndex ix(r.n); CHECK_EQ((size_t)ix.size(), r.g.size(), "ones of the index"); for(size_t o = 0; o < r.g.size(); o++) { CHECK_EQ((size_t)ix.size((index_t)o), r.g[o].size(), "size of one " << o); if(!r.g[o].empty() && !r.n.has_child("indices")) CHECK_EQ(ix.offset((index_t)o), (index_t)r.g[o][0], "offset of one " << o); for(size_t k = 0; k < r.g[o].size(); k++) CHECK_EQ(ix.index((index_t)o, (index_t)k), (index_t)r.g[o][k], "index of one " << o << " many " << k); } o2m::O2MIndex cp(ix), as; as = cp; if(!flat.empty()) for(size_t o = 0; o < r.g.size(); o++) if(!r.g[o].empty()) CHECK_EQ(as.index((index_t)o, 0), (index_t)r.g[o][0], "copied index"); }
    { o2m::O2MIterator it(r.n); CHECK_EQ((size_t)it.elements(o2m::DATA), flat.size(), "data elements"); CHECK_EQ((size_t)it.elements(o2m::ONE), r.g.size(), "one elements"); for(size_t o = 0; o < r.g.size(); o++) { it.to((index_t)o, o2m::ONE); CHECK_EQ(it.index(o2m::ONE), (index_t)o, "to one"); CHECK_EQ((size_t)it.elements(o2m::MANY), r.g[o].size(), "many elements of " << o); VI seen; it.to_front(o2m::MANY); while(it.has_next(o2m::MANY)) { index_t pk = it.peek_next(o2m::MANY), nx = it.next(o2m::MANY); CHECK_EQ(pk, nx, "peek many"); CHECK_EQ((size_t)nx, seen.size(), "many counter"); CHECK_EQ(it.index(o2m::MANY), nx, "many index"); seen.push_back((int)it.index(o2m::DATA)); CHECK(seen.size() <= r.g[o].size(), "too many"); } CHECK(seen == r.g[o], "many walk of one " << o << ": " << str(seen) << " not " << str(r.g[o])); for(size_t k = 0; k < r.g[o].size(); k++) { it.to((index_t)k, o2m::MANY); CHECK_EQ(it.index(o2m::DATA), (index_t)r.g[o][k], "to many"); } } }
    if(!zero)
    {
        o2m::O2MIterator it(r.n); VI seen; while(it.has_next()) { index_t pk = it.peek_next(), nx = it.next(); CHECK_EQ(pk, nx, "peek_next is next"); CHECK_EQ(it.index(), nx, "index after next"); seen.push_back((int)nx); CHECK(seen.size() <= flat.size(), "walk ends"); } CHECK(seen == flat, "forward walk " << str(seen) << " not " << str(flat));
        it.to_back(); VI back; while(it.has_previous()) { index_t pk = it.peek_previous(), pv = it.previous(); CHECK_EQ(pk, pv, "peek_previous is previous"); back.push_back((int)pv); CHECK(back.size() <= flat.size(), "walk ends"); } std::reverse(back.begin(), back.end()); CHECK(back == flat, "backward walk " << str(back) << " not " << str(flat));
        it.to_front(); Groups g; while(it.has_next(o2m::DATA)) { index_t one = it.next(o2m::ONE); CHECK_EQ((size_t)one, g.size(), "next one"); CHECK_EQ(it.index(o2m::ONE), one, "one index"); g.push_back(VI()); it.to_front(o2m::MANY); while(it.has_next(o2m::MANY)) { it.next(o2m::MANY); g.back().push_back((int)it.index(o2m::DATA)); } CHECK(g.size() <= r.g.size(), "walk ends"); } CHECK(g == r.g, "nested walk");
        for(int t = 0; t < 3 && !flat.empty(); t++) { int q = (int)s.range(0, (int)flat.size() - 1); it.to(q, o2m::DATA); CHECK_EQ(it.index(), (index_t)flat[q], "to data " << q); o2m::O2MIterator cp(it), as; as = it; CHECK_EQ(cp.has_next(), (size_t)q + 1 < flat.size(), "has_next of a copy"); if(cp.has_next()) CHECK_EQ(cp.next(), (index_t)flat[q + 1], "next of a copy"); CHECK_EQ(as.has_previous(), q > 0, "has_previous of a copy"); if(q > 0) CHECK_EQ(as.previous(), (index_t)flat[q - 1], "previous of a copy"); CHECK_EQ(it.index(), (index_t)flat[q], "the original stays"); }
    }
    { Node d; if(s.coin()) { d["old"] = 1; d["values/x"] = 2; } o2m::compact_to(r.n, d); CHECK(!d.has_child("old"), "old contents are gone"); Node i2; CHECK(o2m::verify(d, i2), "compacted relation verifies"); for(auto &p : r.paths) CHECK_EQ(d[p].dtype().id(), r.n[p].dtype().id(), "type of " << p); same_groups(d, r, "compacted");
      if(r.has_sizes) { CHECK(ivals(d["sizes"]) == r.sizes, "sizes"); CHECK(ivals(d["offsets"]) == prefix(r.sizes), "offsets are compact"); for(auto &p : r.paths) CHECK_EQ((size_t)d[p].dtype().number_of_elements(), flat.size(), "length of " << p); CHECK(!d.has_child("indices"), "no indices"); } }
    { Node n; n.set(r.n); if(s.coin() && n.has_child("offsets")) n.remove("offsets"); Node i3; bool ok = o2m::generate_offsets(n, i3); CHECK_EQ(ok, r.has_sizes, "generate_offsets needs sizes"); if(ok) { CHECK(ivals(n["offsets"]) == prefix(r.sizes), "generated offsets"); for(auto &k : r.n.child_names()) if(k != "offsets") { M m = model::read(r.n[k]); CHECK_NODE(n[k], m, "generate_offsets keeps " << k); } } }
    r.A.check_gaps("relation"); CHECK_NODE(r.n, before, "the source");
}
static void gen_any(Source &s, Node &n, int depth)
{
    static const char *NM[6] = {"values", "sizes", "offsets", "indices", "x", "a b"}; int k = depth == 0 ? (int)s.weighted({6, 2, 1}) : (int)s.weighted({1, 1, 12}); int cnt = (int)s.range(0, 4);
    if(k == 0) { n.set(DataType::object()); for(int i = 0; i < cnt; i++) gen_any(s, n[NM[s.range(0, 5)]], depth + 1); } else if(k == 1) { n.set(DataType::list()); for(int i = 0; i < cnt; i++) gen_any(s, n.append(), depth + 1); }
    else switch(s.weighted({5, 5, 2, 1})) { case 0: n.set(DataType::int32(s.range(0, 3))); break; case 1: n.set(DataType::float64(s.range(0, 3))); break; case 2: n = "str"; break; default: break; }
}
// verify functions on any tree
PBT(verify, 60000, 5000000)
{
    Node n; gen_any(s, n, 0); if(c.want_desc) c.desc << n.to_json(); c.nontrivial(n.number_of_children() >= 2); M before = model::read(n);
    auto ok_info = [&](bool r, const Node &i, const char *w) { CHECK(i.has_child("valid") && i["valid"].as_string() == (r ? "true" : "false"), w << ": info/valid agrees: " << i.to_json()); if(r) CHECK(!i.has_child("errors"), w << ": no errors"); else CHECK(i.has_child("errors"), w << ": errors are listed"); };
    { bool want = n.dtype().is_object(), data = false; if(want) { auto has = [&](const char *k) { return n.has_child(k); }; for(auto k : {"sizes", "offsets", "indices"}) if(has(k) && !n[k].dtype().is_integer()) want = false; if(has("sizes") != has("offsets")) want = false; if(want && has("sizes") && n["sizes"].dtype().number_of_elements() != n["offsets"].dtype().number_of_elements()) want = false; for(auto &k : n.child_names()) if(k != "sizes" && k != "offsets" && k != "indices" && n[k].dtype().is_number()) data = true; want = want && data; } Node i; bool r = o2m::verify(n, i); CHECK_EQ(r, want, "o2mrelation verify"); ok_info(r, i, "o2mrelation"); Node i2; CHECK_EQ(bp::verify("o2mrelation", n, i2), want, "by name"); }
    { bool want = n.dtype().is_object() || n.dtype().is_list(); index_t len = -1; for(index_t k = 0; k < n.number_of_children(); k++) { const Node &q = n.child(k); if(!q.dtype().is_number()) want = false; else if(len < 0) len = q.dtype().number_of_elements(); else if(len != q.dtype().number_of_elements()) want = false; } Node i; i["errors"] = "old"; bool r = bp::mcarray::verify(n, i); CHECK_EQ(r, want, "mcarray verify"); ok_info(r, i, "mcarray"); Node i2; CHECK_EQ(bp::verify("mcarray", n, i2), want, "by name"); }
    CHECK_NODE(n, before, "the source");
}
// layouts of multi-component arrays
PBT(components, 40000, 5000000)
{
    Node n; Arena A; bool list = s.chance(1, 4); int nc = 1 + (int)s.range(0, 3), len = (int)s.range(s.chance(1, 12) ? 0 : 1, 6); static const char *NM[5] = {"x", "y", "z", "a b", "p/q"}; if(list) n.set(DataType::list()); else n.set(DataType::object()); bool same = s.coin(); int ty = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT8_ID}); bool big = s.chance(1, 4); index_t tuple = 0;
    std::vector<M> ms; VI off; for(int k = 0; k < nc; k++) { int id = same ? ty : s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT8_ID, DataType::UINT64_ID, DataType::INT16_ID}); M m; m.id = id; for(int i = 0; i < len; i++) m.v.push_back(gen_val(s, id, false)); ms.push_back(m); off.push_back((int)tuple); tuple += ebytes(id); }
    VI nm; for(int i = 0; i < 5; i++) nm.push_back(i); for(int i = 4; i > 0; i--) std::swap(nm[i], nm[s.range(0, i)]);
    bool inter = s.chance(1, 3); index_t pad = inter ? s.range(0, 2) * 8 : 0, lead = inter ? s.range(0, 1) * 8 : 0; std::vector<unsigned char> buf((size_t)(lead + (tuple + pad) * (len + 1)), 0x5a); bool plain_inter = inter;
    if(inter && s.chance(1, 3) && nc > 1) { std::swap(off[0], off[1]); if(ebytes(ms[0].id) != ebytes(ms[1].id)) std::swap(off[0], off[1]); else plain_inter = false; }
    for(int k = 0; k < nc; k++) { Node &ch = list ? n.append() : n.add_child(NM[nm[k]]); if(inter) { int eb = ebytes(ms[k].id); for(int i = 0; i < len; i++) write_raw(&buf[(size_t)(lead + (tuple + pad) * i + off[k])], eb, false, ms[k].v[i]); ch.set_external(DataType(ms[k].id, len, lead + off[k], tuple + pad, eb, Endianness::DEFAULT_ID), buf.data()); } else if(s.coin()) { DataType dt; unsigned char *p = A.leaf(s, ms[k], dt, big, true); ch.set_external(dt, p); } else build_plain(ch, ms[k]); }
    if(c.want_desc) c.desc << n.schema().to_json() << n.to_json(); c.nontrivial(nc >= 2 && len >= 2); c.label(list ? "list" : "object"); M before = model::read(n); Node info; CHECK(bp::mcarray::verify(n, info), "verifies");
    if(inter && len >= 1) CHECK_EQ(bp::mcarray::is_interleaved(n), plain_inter, "is_interleaved of an interleaved buffer");
    for(int w = 0; w < 2; w++)
    {
        Node d; if(s.coin()) { d["old"] = 1; d["x/y"] = 2; } CHECK(w ? bp::mcarray::to_interleaved(n, d) : bp::mcarray::to_contiguous(n, d), "converts"); const char *what = w ? "interleaved" : "contiguous";
        CHECK_EQ(d.dtype().is_list(), list, what << ": kind"); CHECK_EQ((int)d.number_of_children(), nc, what << ": components"); index_t at = 0; for(int k = 0; k < nc; k++) { const Node &q = d.child(k); if(!list) CHECK_EQ(d.child_names()[k], std::string(NM[nm[k]]), what << ": name"); CHECK_NODE(q, ms[k], what << ": component " << k); if(len > 0) { index_t rel = (const char *)q.element_ptr(0) - (const char *)d.child(0).element_ptr(0); CHECK_EQ(rel, at, what << ": place of component " << k); if(len > 1) CHECK_EQ((const char *)q.element_ptr(1) - (const char *)q.element_ptr(0), (ptrdiff_t)(w ? tuple : (index_t)ebytes(ms[k].id)), what << ": stride of " << k); } at += w ? (index_t)ebytes(ms[k].id) : (index_t)ebytes(ms[k].id) * len; }
        if(len > 0) { CHECK_EQ(d.total_bytes_allocated(), (index_t)tuple * len, what << ": bytes"); if(w) CHECK(bp::mcarray::is_interleaved(d), "is_interleaved of its result"); else { CHECK(d.is_contiguous(), "is_contiguous"); if(len > 1 && nc > 1) CHECK(!bp::mcarray::is_interleaved(d), "a contiguous array is not interleaved"); } }
        Node i; CHECK(bp::mcarray::verify(d, i), what << ": result verifies"); if(len > 0) { unsigned char *p = (unsigned char *)d.child(0).element_ptr(0); p[0] ^= 0xff; } CHECK_NODE(n, before, "the source");
    }
    A.check_gaps("components");
}
PBT(ndindex, 25000, 3000000)
{
    int nd = 1 + (int)s.range(0, 3); std::vector<index_t> sh, of, st; for(int d = 0; d < nd; d++) { sh.push_back(s.range(1, 6)); of.push_back(s.range(0, 3)); st.push_back(s.range(1, 40)); } bool ho = s.coin(), hs = s.coin(); Node n; Arena A; auto I = [](const std::vector<index_t> &v) { VI r; for(auto x : v) r.push_back((int)x); return r; };
    put(s, n["shape"], num(gen_itype(s, true), I(sh)), &A); if(ho) put(s, n["offset"], num(gen_itype(s, true), I(of)), &A); if(hs) put(s, n["stride"], num(gen_itype(s, true), I(st)), &A); if(c.want_desc) c.desc << n.to_json(); c.nontrivial(nd >= 2);
    if(!ho) of.assign(nd, 0); if(!hs) { st.assign(nd, 1); for(int d = 1; d < nd; d++) st[d] = st[d - 1] * (of[d - 1] + sh[d - 1]); }
    bp::ndarray::NDIndex a(n), b(nd, sh.data(), ho ? of.data() : NULL, hs ? st.data() : NULL), cp(a), as(&n); as = cp; for(auto *x : {&a, &b, &cp, &as})
    {
        CHECK_EQ(x->ndims(), (index_t)nd, "ndims"); for(int d = 0; d < nd; d++) { CHECK_EQ(x->shape(d), sh[d], "shape " << d); CHECK_EQ(x->offset(d), of[d], "offset " << d); CHECK_EQ(x->stride(d), st[d], "stride " << d); }
        for(int t = 0; t < 4; t++) { index_t q[4] = {0, 0, 0, 0}, want = 0; for(int d = 0; d < nd; d++) { q[d] = s.range(0, sh[d] - 1); want += (of[d] + q[d]) * st[d]; } index_t got = nd == 1 ? x->index(q[0]) : nd == 2 ? x->index(q[0], q[1]) : nd == 3 ? x->index(q[0], q[1], q[2]) : x->index(q[0], q[1], q[2], q[3]); CHECK_EQ(got, want, "flat index"); }
        Node i; x->info(i); CHECK(ivals(i["shape"]) == I(sh) && ivals(i["offset"]) == I(of) && ivals(i["stride"]) == I(st), "info"); CHECK_EQ(i["user_provided/offset"].as_string(), std::string(ho ? "true" : "false"), "info"); CHECK_EQ(i["user_provided/stride"].as_string(), std::string(hs ? "true" : "false"), "info");
    }
}
PBT_MAIN()

// Material sets, fields and species sets keep their contents through every conversion.
#include "pbt_main.hpp"
#include "domain.hpp"
using namespace vmesh; using namespace model; namespace bm = conduit::blueprint::mesh;

typedef std::vector<std::map<std::string, double> > Content;   // per element: material name -> value
static Content content(const Mats &m) { Content r; for(auto &f : m.vf) { std::map<std::string, double> x; for(auto &e : f) x[m.names[e.first]] = e.second; r.push_back(x); } return r; }
static const char *FL[4] = {"multi-buffer by element", "uni-buffer by element", "multi-buffer by material", "uni-buffer by material"};
// uni-buffer by element with any arrangement of the buffer: permuted, with gaps, with indices, or one to one
struct Arr { std::vector<int> where; int len = 0; VI sizes, offsets, indices; bool o2m = true; };
static Arr arrange(Source &s, const Mats &m)
{
    Arr a; int n = total_entries(m); for(auto &f : m.vf) a.sizes.push_back((int)f.size()); a.offsets = prefix(a.sizes); a.len = n; for(int i = 0; i < n; i++) a.where.push_back(i);
    int k = (int)s.weighted({4, 2, 2, 1});
    if(k == 1) { VI ord((size_t)m.vf.size()); for(size_t i = 0; i < ord.size(); i++) ord[i] = (int)i; for(int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[s.range(0, i)]); int at = 0; for(int e : ord) { at += s.chance(1, 4) ? (int)s.range(0, 2) : 0; a.offsets[e] = at; at += a.sizes[e]; } a.len = at; VI p = prefix(a.sizes); for(size_t e = 0; e < m.vf.size(); e++) for(int i = 0; i < a.sizes[e]; i++) a.where[p[e] + i] = a.offsets[e] + i; }
    else if(k == 2) { a.indices.resize(n); VI pm(n); for(int i = 0; i < n; i++) pm[i] = i; for(int i = n - 1; i > 0; i--) std::swap(pm[i], pm[s.range(0, i)]); for(int i = 0; i < n; i++) { a.indices[i] = pm[i]; a.where[i] = pm[i]; } }
    else if(k == 3) { bool one = true; for(int z : a.sizes) if(z != 1) one = false; if(one) a.o2m = false; }
    return a;
}
static void put_uni(Source &s, Node &n, const Mats &m, const Arr &a, const std::string &topo, Arena *A, int it, int ft)
{
    n["topology"] = topo; for(size_t k = 0; k < m.names.size(); k++) model::build_plain(n["material_map"][m.names[k]], num(it == DataType::INT64_ID ? it : (int)DataType::INT32_ID, VI(1, m.ids[k])));
    std::vector<double> vf(a.len, 0.0); VI id(a.len, m.ids[0]); int i = 0; for(auto &p : uni_order(s, m, UNI_ELEM, false)) { vf[a.where[i]] = m.vf[p.first].at(p.second); id[a.where[i]] = m.ids[p.second]; i++; }
    put(s, n["volume_fractions"], num(ft, vf), A); put(s, n["material_ids"], num(it, id), A); if(a.o2m) { put(s, n["sizes"], num(it, a.sizes), A); put(s, n["offsets"], num(it, a.offsets), A); if(!a.indices.empty()) put(s, n["indices"], num(it, a.indices), A); }
}
// read the volume fractions, or the values of a field (v), of a material set
static Content read_mat(const Node &ms, const Node &v, int nel, bool drop_zero)
{
    Content r((size_t)nel); auto at = [&](int e) -> std::map<std::string, double> & { CHECK(e >= 0 && e < nel, "element id " << e << " is one of " << nel); return r[e]; };
    auto put1 = [&](int e, const std::string &k, double x) { auto &mp = at(e); CHECK(!mp.count(k), "element " << e << " lists material " << k << " once"); mp[k] = x; };
    if(bm::matset::is_multi_buffer(ms))
    {
        for(auto &k : ms["volume_fractions"].child_names())
        {
            std::vector<double> f = dvals(ms["volume_fractions"][k]), x = dvals(v[k]); CHECK_EQ(f.size(), x.size(), "values of material " << k);
            if(ms.has_child("element_ids")) { VI e = ivals(ms["element_ids"][k]); CHECK_EQ(e.size(), x.size(), "element ids of material " << k); for(size_t i = 0; i < e.size(); i++) put1(e[i], k, x[i]); }
            else { CHECK_EQ((int)x.size(), nel, "one value per element"); for(int i = 0; i < nel; i++) if(!drop_zero || f[i] > 0) put1(i, k, x[i]); }
        }
        return r;
    }
    std::map<int, std::string> nm; for(auto &k : ms["material_map"].child_names()) nm[ms["material_map"][k].to_int()] = k; VI id = ivals(ms["material_ids"]); std::vector<double> x = dvals(v); CHECK_EQ(id.size(), x.size(), "material ids"); CHECK(ms.has_child("sizes"), "sizes"); VI sz = ivals(ms["sizes"]), of = ivals(ms["offsets"]); CHECK_EQ((int)sz.size(), nel, "sizes"); CHECK_EQ((int)of.size(), nel, "offsets");
    for(int e = 0; e < nel; e++) for(int i = 0; i < sz[e]; i++) { int q = of[e] + i; CHECK(q >= 0 && q < (int)x.size(), "offset inside the buffer"); CHECK(nm.count(id[q]), "material id " << id[q] << " is in the map"); put1(e, nm[id[q]], x[q]); }
    return r;
}
static void same(const Content &got, const Content &want, const char *what)
{ CHECK_EQ(got.size(), want.size(), what); for(size_t e = 0; e < got.size(); e++) { for(auto &x : want[e]) { auto f = got[e].find(x.first); CHECK(f != got[e].end(), what << ": element " << e << " lost material " << x.first); CHECK_EQ(f->second, x.second, what << ": element " << e << " material " << x.first); } CHECK_EQ(got[e].size(), want[e].size(), what << ": materials of element " << e); } }
struct Case { Mats m; int nel; int fl; Node n; Arena A; Arr a; std::vector<std::vector<double> > val; bool has_values; int ft; };
static void make(Source &s, Case &k, bool field, bool uni_mat)
{
    k.nel = 1 + s.len(7); k.m = gen_mats(s, k.nel); k.fl = (int)s.range(0, uni_mat ? 3 : 2); int it = gen_itype(s, true); k.ft = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID}); Node &ms = k.n["matsets/mats"];
    Arena *A = &k.A; if(k.fl == UNI_ELEM) { k.a = arrange(s, k.m); put_uni(s, ms, k.m, k.a, "topo", A, it, k.ft); } else put_matset(s, ms, k.m, k.fl, "topo", A, it, k.ft);
    for(int e = 0; e < k.nel; e++) { k.val.push_back(std::vector<double>()); for(size_t q = 0; q < k.m.names.size(); q++) k.val[e].push_back((double)s.range(-50, 50)); }
    k.has_values = false; if(!field) return;
    Node &f = k.n["fields/f"]; if(s.coin()) f["association"] = "element"; else f["basis"] = "L2"; f["topology"] = "topo"; f["matset"] = "mats"; if(s.coin()) f["volume_dependent"] = s.pick<std::string>({"true", "false"}); k.has_values = true; { std::vector<double> v; for(int e = 0; e < k.nel; e++) v.push_back(e + 0.5); put(s, f["values"], num(DataType::FLOAT64_ID, v), A); }
    int ty = s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID}); auto V = [&](int e, int q) { return k.val[e][q]; };
    if(k.fl == UNI_ELEM) { std::vector<double> v(k.a.len, -99); int i = 0; for(auto &p : uni_order(s, k.m, UNI_ELEM, false)) v[k.a.where[i++]] = V(p.first, p.second); put(s, f["matset_values"], num(ty, v), A); }
    else put_matvals(s, f["matset_values"], k.m, k.fl, V, -77, ty, A);
}
static Content field_content(const Case &k) { Content r; for(int e = 0; e < k.nel; e++) { std::map<std::string, double> x; for(auto &q : k.m.vf[e]) x[k.m.names[q.first]] = k.val[e][q.first]; r.push_back(x); } return r; }
static void describe(pbt::Ctx &c, Case &k) { if(c.want_desc) c.desc << FL[k.fl] << " " << k.nel << " elements " << k.n.to_json(); int mix = 0; for(auto &f : k.m.vf) if(f.size() > 1) mix++; c.nontrivial(k.nel >= 2 && mix >= 1); c.label(FL[k.fl]); }
static bool verifiable(const Case &k) { return !(k.fl == UNI_ELEM && false); }

// chains of conversions of the set and a field on it
PBT(convert, 60000, 3000000)
{
    Case k; make(s, k, true, false); describe(c, k); M before = model::read(k.n); { Node info; CHECK(bm::matset::verify(k.n["matsets/mats"], info), "generated set verifies " << info.to_json()); } (void)verifiable;
    CHECK_EQ(bm::matset::is_multi_buffer(k.n["matsets/mats"]), k.fl != UNI_ELEM, "is_multi_buffer"); CHECK_EQ(bm::matset::is_uni_buffer(k.n["matsets/mats"]), k.fl == UNI_ELEM, "is_uni_buffer"); CHECK_EQ(bm::matset::is_element_dominant(k.n["matsets/mats"]), k.fl != MULTI_MAT, "is_element_dominant"); CHECK_EQ(bm::matset::is_material_dominant(k.n["matsets/mats"]), k.fl == MULTI_MAT, "is_material_dominant");
    Content vf = content(k.m), fv = field_content(k); int steps = 1 + (int)s.range(0, 2); const Node *ms = &k.n["matsets/mats"], *f = &k.n["fields/f"]; std::vector<std::unique_ptr<Node> > hold; bool plain_uni = k.fl != UNI_ELEM || (k.a.o2m && k.a.indices.empty());
    for(int t = 0; t < steps; t++)
    {
        int to = (int)s.range(0, 2); hold.emplace_back(new Node()); Node &md = *hold.back(); hold.emplace_back(new Node()); Node &fd = *hold.back(); if(s.coin()) { md["old"] = 1; md["element_ids/x"] = 1; fd["old"] = 2; fd["matset_values/x"] = 1; } if(c.want_desc) c.desc << " -> " << FL[to];
        double eps = 0; bool e2 = to != MULTI_ELEM && t == steps - 1 && bm::matset::is_multi_buffer(*ms) && bm::matset::is_element_dominant(*ms) && s.coin(); if(e2) eps = (double)s.range(0, 8) / 16.0;
        std::string nn = s.pick<std::string>({"mats", "other"});
        if(to == MULTI_ELEM) { bm::matset::to_multi_buffer_full(*ms, md); bm::field::to_multi_buffer_full(*ms, *f, nn, fd); }
        else if(to == UNI_ELEM) { if(e2) { bm::matset::to_sparse_by_element(*ms, md, eps); bm::field::to_sparse_by_element(*ms, *f, nn, fd, eps); } else { bm::matset::to_sparse_by_element(*ms, md); bm::field::to_sparse_by_element(*ms, *f, nn, fd); } }
        else { if(e2) { bm::matset::to_multi_buffer_by_material(*ms, md, eps); bm::field::to_multi_buffer_by_material(*ms, *f, nn, fd, eps); } else { bm::matset::to_multi_buffer_by_material(*ms, md); bm::field::to_multi_buffer_by_material(*ms, *f, nn, fd); } }
        if(e2) for(int e = 0; e < k.nel; e++) for(auto q = vf[e].begin(); q != vf[e].end();) if(q->second > eps) ++q; else { fv[e].erase(q->first); q = vf[e].erase(q); }
        bool copy = (to == MULTI_ELEM && ms->has_child("volume_fractions") && bm::matset::is_multi_buffer(*ms) && bm::matset::is_element_dominant(*ms)) || (to == UNI_ELEM && bm::matset::is_uni_buffer(*ms)) || (to == MULTI_MAT && bm::matset::is_material_dominant(*ms));
        Node info; CHECK(bm::matset::verify(md, info), "the converted set verifies: " << info.to_json().substr(0, 800)); Node i2; CHECK(bm::field::verify(fd, i2), "the converted field verifies: " << i2.to_json().substr(0, 800));
        CHECK_EQ(bm::matset::is_multi_buffer(md), to != UNI_ELEM, "flavour"); CHECK_EQ(bm::matset::is_material_dominant(md), to == MULTI_MAT, "flavour"); CHECK_EQ(md["topology"].as_string(), std::string("topo"), "topology"); CHECK(!md.has_child("old") && !fd.has_child("old"), "old contents are gone");
        if(!copy || plain_uni) { same(read_mat(md, md["volume_fractions"], k.nel, true), vf, "volume fractions"); same(read_mat(md, fd["matset_values"], k.nel, true), fv, "field values"); }
        if(!copy || true) CHECK_EQ(fd["matset"].as_string(), nn, "the field names the new set");
        for(auto key : {"association", "basis", "topology", "volume_dependent"}) { CHECK_EQ(fd.has_child(key), f->has_child(key), key); if(f->has_child(key)) CHECK_EQ(fd[key].as_string(), (*f)[key].as_string(), key); } { M a = model::read((*f)["values"]); CHECK_NODE(fd["values"], a, "plain values of the field"); }
        if(copy && !plain_uni) break; plain_uni = true; ms = &md; f = &fd;
    }
    k.A.check_gaps("convert"); CHECK_NODE(k.n, before, "the source");
}
// replace the array of a material by an equivalent one-to-one relation
static void wrap(Source &s, Node &n, Arena &A)
{
    if(!s.coin()) return; std::vector<double> v = dvals(n); int ty = n.dtype().id(), k = (int)s.range(0, 2), cnt = (int)v.size(); n.reset(); VI at; for(int i = 0; i < cnt; i++) at.push_back(i); int gap = (int)s.range(0, 2); for(int i = cnt - 1; i > 0; i--) std::swap(at[i], at[s.range(0, i)]); std::vector<double> d((size_t)cnt + gap, -33); if(k == 0) { put(s, n["data"], num(ty, v), &A); return; }
    for(int i = 0; i < cnt; i++) d[at[i]] = v[i]; put(s, n[s.coin() ? "values" : "data"], num(ty, d), &A); int it = gen_itype(s, true); if(k == 1) put(s, n["indices"], num(it, at), &A); else { put(s, n["sizes"], num(it, VI((size_t)cnt, 1)), &A); put(s, n["offsets"], num(it, at), &A); }
}
// the silo form of the set, a field and a species set
PBT(silo, 60000, 3000000)
{
    Case k; make(s, k, true, true); describe(c, k); Node &ms = k.n["matsets/mats"], &f = k.n["fields/f"]; int nm = (int)k.m.names.size(); std::vector<std::vector<std::vector<double> > > sp; Node &sn = k.n["specsets/s"]; sn["matset"] = "mats"; VI nsp;
    for(int q = 0; q < nm; q++) { int ns = 1 + (int)s.range(0, 2); nsp.push_back(ns); sp.push_back(std::vector<std::vector<double> >()); for(int x = 0; x < ns; x++) { std::vector<double> v; for(int e = 0; e < k.nel; e++) v.push_back((double)s.range(0, 64) / 64); sp[q].push_back(v); put(s, sn["matset_values"][k.m.names[q]]["sp" + std::to_string(x)], num(s.pick<int>({DataType::FLOAT64_ID, DataType::FLOAT32_ID}), v), &k.A); } }
    if((k.fl == MULTI_ELEM || k.fl == MULTI_MAT) && s.chance(1, 3)) { for(auto &nm2 : ms["volume_fractions"].child_names()) { wrap(s, ms["volume_fractions"][nm2], k.A); wrap(s, f["matset_values"][nm2], k.A); } Node info; CHECK(bm::matset::verify(ms, info), "set of relations verifies " << info.to_json()); c.label("relations"); }
    if(k.fl == UNI_ELEM && k.a.o2m && k.nel > 1 && s.chance(1, 12)) { int e = (int)s.range(0, k.nel - 1); Node t = ms; VI z = k.a.sizes; z[e] = 0; t["sizes"].set(z); Node d; bool threw = false; try { bm::matset::to_silo(t, d); } catch(conduit::Error &) { threw = true; } CHECK(threw, "an element without materials has no silo form"); c.label("void element"); }
    M before = model::read(k.n); bool has_map = ms.has_child("material_map"); std::map<std::string, int> ids; for(int q = 0; q < nm; q++) ids[k.m.names[q]] = has_map ? k.m.ids[q] : q;
    double eps = -1; if(s.chance(1, 3)) { double mx = 1; for(auto &x : k.m.vf) { double m = 0; for(auto &y : x) m = std::max(m, y.second); mx = std::min(mx, m); } eps = std::min((double)s.range(0, 6) / 16, mx - 1.0 / 16); }
    Content vf = content(k.m); if(eps > 0) for(auto &x : vf) for(auto q = x.begin(); q != x.end();) if(q->second > eps) ++q; else q = x.erase(q);
    for(int pass = 0; pass < 2; pass++)
    {
        Node d; if(s.coin()) { d["old"] = 1; d["matlist"] = "x"; } if(pass == 0) { if(eps >= 0) bm::matset::to_silo(ms, d, eps); else bm::matset::to_silo(ms, d); } else { if(eps >= 0) bm::field::to_silo(f, ms, d, eps); else bm::field::to_silo(f, ms, d); }
        CHECK(!d.has_child("old"), "old contents are gone"); CHECK_EQ(d["topology"].as_string(), std::string("topo"), "topology"); CHECK_EQ((int)d["material_map"].number_of_children(), nm, "material_map"); for(auto &x : ids) CHECK_EQ(d["material_map"][x.first].to_int(), x.second, "material_map " << x.first);
        CHECK_EQ((int)d["matlist"].dtype().number_of_elements(), k.nel, "matlist length"); int64_accessor ml = d["matlist"].as_int64_accessor(), mn = d["mix_next"].as_int64_accessor(), mm = d["mix_mat"].as_int64_accessor(); float64_accessor mv = d["mix_vf"].as_float64_accessor(); size_t slots = 0; for(auto &x : vf) if(x.size() > 1) slots += x.size();
        for(auto key : {"mix_next", "mix_mat", "mix_vf"}) CHECK_EQ((size_t)d[key].dtype().number_of_elements(), slots, key); if(pass == 1) CHECK_EQ((size_t)d["field_mixvar_values"].dtype().number_of_elements(), slots, "field_mixvar_values"); std::set<int64> used; std::map<int, std::string> nmof; for(auto &x : ids) nmof[x.second] = x.first;
        for(int e = 0; e < k.nel; e++)
        {
            if(vf[e].size() == 1) { CHECK_EQ(ml[e], (int64)ids[vf[e].begin()->first], "matlist of clean element " << e); continue; }
            CHECK(ml[e] < 0, "matlist of mixed element " << e << " is " << ml[e]); int64 q = -ml[e] - 1; std::map<std::string, double> got; int n = 0; for(;; n++) { CHECK(q >= 0 && q < (int64)slots && !used.count(q), "slot " << q << " of element " << e); used.insert(q); std::string name = nmof[(int)mm[q]]; CHECK(!got.count(name), "material once"); got[name] = mv[q]; if(pass == 1) { float64_accessor fv = d["field_mixvar_values"].as_float64_accessor(); int mi = 0; for(int z = 0; z < nm; z++) if(k.m.names[z] == name) mi = z; CHECK_EQ(fv[q], k.val[e][mi], "mixvar of element " << e << " material " << name); } if(mn[q] == 0) break; q = mn[q] - 1; }
            CHECK(got == vf[e], "mix slots of element " << e);
        }
        if(pass == 1) { M v = model::read(f["values"]); CHECK_NODE(d["field_values"], v, "field_values"); }
        if(pass == 0 && eps < 0)
        {
            Node o; const Node *src = s.coin() ? &ms : &d; if(s.coin()) { Node t; bm::specset::to_silo(sn, *src, o); } bm::specset::to_silo(sn, *src, o); int tot = 0; for(int x : nsp) tot += x;
            CHECK_EQ(o["nmat"].to_int(), nm, "nmat"); CHECK(ivals(o["nmatspec"]) == nsp, "nmatspec"); CHECK_EQ((int)o["specnames"].number_of_children(), tot, "specnames"); { int i = 0; for(int q = 0; q < nm; q++) for(int x = 0; x < nsp[q]; x++) CHECK_EQ(o["specnames"].child(i++).as_string(), "sp" + std::to_string(x), "specname"); }
            std::vector<double> mf = dvals(o["species_mf"]); VI sl = ivals(o["speclist"]), mx = ivals(o["mix_spec"]); CHECK_EQ((int)mf.size(), o["nspecies_mf"].to_int(), "nspecies_mf"); CHECK_EQ((int)mx.size(), o["mixlen"].to_int(), "mixlen"); CHECK_EQ(mx.size(), slots, "mix_spec"); CHECK_EQ((int)sl.size(), k.nel, "speclist");
            auto chk = [&](int e, int mi, int at) { CHECK(at >= 1 && at - 1 + nsp[mi] <= (int)mf.size(), "species index " << at); for(int x = 0; x < nsp[mi]; x++) CHECK_EQ(mf[at - 1 + x], sp[mi][x][e], "mass fraction of element " << e << " material " << k.m.names[mi] << " species " << x); };
            auto mi_of = [&](const std::string &nmx) { for(int z = 0; z < nm; z++) if(k.m.names[z] == nmx) return z; return 0; };
            for(int e = 0; e < k.nel; e++) { if(vf[e].size() == 1) { chk(e, mi_of(vf[e].begin()->first), sl[e]); continue; } CHECK(sl[e] < 0, "speclist of a mixed element"); int64 q = -ml[e] - 1; int b = -sl[e] - 1; for(;;) { CHECK(b >= 0 && b < (int)mx.size(), "mix_spec index"); chk(e, mi_of(nmof[(int)mm[q]]), mx[b]); b++; if(mn[q] == 0) break; q = mn[q] - 1; } }
        }
    }
    k.A.check_gaps("silo"); CHECK_NODE(k.n, before, "the source");
}
PBT_MAIN()

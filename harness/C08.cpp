// C08: diff and diff_compatible report exactly the differences there are.
#include "pbt_main.hpp"
#include "model.hpp"
using namespace model; using namespace conduit;

static long double val(int id, uint64_t v)
{
    if(id == DataType::FLOAT64_ID) return bits_f64(v);
    if(id == DataType::FLOAT32_ID) return bits_f32(v);
    if(is_signed(id)) return (long double)bits_i(id, v);
    return (long double)v;
}
static bool val_differs(int id, uint64_t a, uint64_t b, double eps)
{
    if(!is_float(id)) return a != b;
    if(id == DataType::FLOAT64_ID) { double x = bits_f64(a), y = bits_f64(b), d = x - y; if(std::isnan(x) != std::isnan(y)) return true; return d > eps || d < -eps; }
    float x = bits_f32(a), y = bits_f32(b), d = x - y; if(std::isnan(x) != std::isnan(y)) return true; return d > eps || d < -eps;
}
static bool mdiff(const M &a, const M &b, bool compat, double eps, bool relax)
{
    if(a.id != b.id)
    {
        if(relax && a.num() && b.num() && !is_float(a.id) && !is_float(b.id))
        {
            if(compat ? a.v.size() > b.v.size() : a.v.size() != b.v.size()) return true;
            for(size_t i = 0; i < a.v.size(); i++) if(val(a.id, a.v[i]) != val(b.id, b.v[i])) return true;
            return false;
        }
        return true;
    }
    if(a.obj())
    {
        for(auto &k : a.kids) { int i = b.find(k.first); if(i < 0 || mdiff(k.second, b.kids[i].second, compat, eps, relax)) return true; }
        if(!compat) for(auto &k : b.kids) if(a.find(k.first) < 0) return true;
        return false;
    }
    if(a.list())
    {
        if(compat ? a.kids.size() > b.kids.size() : a.kids.size() != b.kids.size()) return true;
        for(size_t i = 0; i < a.kids.size(); i++) if(mdiff(a.kids[i].second, b.kids[i].second, compat, eps, relax)) return true;
        return false;
    }
    if(a.str()) { std::string x = a.s(), y = b.s(); return compat ? y.compare(0, x.size(), x) != 0 : x != y; }
    if(a.num())
    {
        if(compat ? a.v.size() > b.v.size() : a.v.size() != b.v.size()) return true;
        for(size_t i = 0; i < a.v.size(); i++) if(val_differs(a.id, a.v[i], b.v[i], eps)) return true;
    }
    return false;
}
// the digest names the differences
static void check_info(const Node &info, const M &a, const M &b, bool compat, double eps, bool relax, const std::string &path)
{
    bool d = mdiff(a, b, compat, eps, relax);
    CHECK(info.has_child("valid") && info["valid"].dtype().is_string(), "no verdict in the digest at " << path);
    CHECK_EQ(info["valid"].as_string(), std::string(d ? "false" : "true"), "verdict in the digest at " << path);
    if(a.id != b.id) { if(d) CHECK(info.has_child("errors") && info["errors"].number_of_children() >= 1, "no error for a type mismatch at " << path); return; }
    if(a.obj())
    {
        std::set<std::string> extra, missing, we, wm;
        for(auto &k : a.kids) if(b.find(k.first) < 0) we.insert(k.first);
        if(!compat) for(auto &k : b.kids) if(a.find(k.first) < 0) wm.insert(k.first);
        if(info.has_child("children"))
        {
            const Node &ch = info["children"];
            if(ch.has_child("extra")) for(index_t i = 0; i < ch["extra"].number_of_children(); i++) extra.insert(ch["extra"].child(i).as_string());
            if(ch.has_child("missing")) for(index_t i = 0; i < ch["missing"].number_of_children(); i++) missing.insert(ch["missing"].child(i).as_string());
        }
        CHECK(extra == we, "extra children in the digest at " << path); CHECK(missing == wm, "missing children in the digest at " << path);
        for(auto &k : a.kids) { int i = b.find(k.first); if(i >= 0) check_info(info["children"]["diff"].child(k.first), k.second, b.kids[i].second, compat, eps, relax, path + "/" + k.first); }
    }
    else if(a.list())
    {
        size_t mn = std::min(a.kids.size(), b.kids.size());
        for(size_t i = 0; i < mn; i++) check_info(info["children/diff"].child((index_t)i), a.kids[i].second, b.kids[i].second, compat, eps, relax, path + "/" + std::to_string(i));
        auto cnt = [&](const char *w) { return info.has_path(std::string("children/") + w) ? info["children"][w].number_of_children() : 0; };
        CHECK_EQ(cnt("extra"), (index_t)(a.kids.size() - mn), "extra entries at " << path);
        CHECK_EQ(cnt("missing"), compat ? 0 : (index_t)(b.kids.size() - mn), "missing entries at " << path);
    }
    else if(a.num() && (compat ? a.v.size() <= b.v.size() : a.v.size() == b.v.size()))
    {
        const Node &v = info["value"]; CHECK_EQ(v.dtype().number_of_elements(), (index_t)a.v.size(), "length of the digest values"); CHECK_EQ((int)v.dtype().id(), a.id, "type of the digest values");
        M got = model::read(v);
        for(size_t i = 0; i < a.v.size(); i++)
        {
            uint64_t want; if(a.id == DataType::FLOAT64_ID) want = f64_bits(bits_f64(a.v[i]) - bits_f64(b.v[i])); else if(a.id == DataType::FLOAT32_ID) want = f32_bits(bits_f32(a.v[i]) - bits_f32(b.v[i])); else want = mask(a.id, a.v[i] - b.v[i]);
            CHECK(same_val(a.id, got.v[i], want), "digest value " << i << " at " << path);
        }
    }
}
static M *pick(Source &s, M &m) { M *x = &m; while(!x->kids.empty() && s.chance(3, 4)) x = &x->kids[s.draw(x->kids.size() - 1)].second; return x; }
static void mutate(Source &s, M &m, const GenOpts &g)
{
    M *x = pick(s, m);
    if(x->num())
    {
        switch(s.weighted({4, 2, 2, 2, 1, 3}))
        {
            case 0: if(!x->v.empty()) x->v[s.draw(x->v.size() - 1)] = gen_val(s, x->id); break;
            case 1: if(!x->v.empty()) { size_t i = s.chance(1, 2) ? x->v.size() - 1 : s.draw(x->v.size() - 1); if(x->id == DataType::FLOAT64_ID) x->v[i] = f64_bits(bits_f64(x->v[i]) + s.pick<double>({1e-13, 1e-11, 1e-3, -1e-3, -1e-11})); else x->v[i] = mask(x->id, x->v[i] ^ (1ull << s.draw(8 * ebytes(x->id) - 1))); } break;
            case 2: x->v.push_back(gen_val(s, x->id)); break;
            case 3: if(!x->v.empty()) x->v.pop_back(); break;
            case 4: *x = gen_leaf(s, g); break;
            default: // the same values in another integer type
                if(!is_float(x->id)) { int id = NUM_IDS[s.draw(7)]; M y; y.id = id; for(auto v : x->v) { int64_t q = bits_i(x->id, v); y.v.push_back(mask(id, (uint64_t)(is_signed(x->id) ? q : (int64_t)v))); } *x = y; } break;
        }
    }
    else if(x->str())
    { std::string t = x->s(); switch(s.range(0, 3)) { case 0: t += "q"; break; case 1: if(!t.empty()) t.pop_back(); break; case 2: if(!t.empty()) t[s.draw(t.size() - 1)] = 'Z'; break; default: t = "p" + t; } *x = M::String(t); }
    else if(x->obj())
    {
        switch(s.range(0, 3))
        {
            case 0: { std::string nm = gen_name(s, g); if(x->find(nm) < 0) x->kids.push_back(std::make_pair(nm, gen_tree(s, g, 3))); break; }
            case 1: if(!x->kids.empty()) x->kids.erase(x->kids.begin() + s.draw(x->kids.size() - 1)); break;
            case 2: if(x->kids.size() > 1) std::swap(x->kids[0], x->kids[1 + s.draw(x->kids.size() - 2)]); break;
            default: if(!x->kids.empty()) { std::string nm = gen_name(s, g); if(x->find(nm) < 0) x->kids[s.draw(x->kids.size() - 1)].first = nm; } break;
        }
    }
    else if(x->list())
    {
        switch(s.range(0, 2)) { case 0: x->kids.push_back(std::make_pair(std::string(), gen_tree(s, g, 3))); break; case 1: if(!x->kids.empty()) x->kids.pop_back(); break; default: if(x->kids.size() > 1) std::swap(x->kids[0], x->kids[1]); }
    }
    else *x = gen_tree(s, g, 3);
}
// strings may sit in longer buffers: what follows the terminator does not matter
static void pad_strings(Source &s, Node &n)
{
    if(n.dtype().is_string() && s.chance(1, 3)) { std::string t = n.as_string(); index_t k = s.range(1, 4); std::string b = t + std::string(1, '\0') + std::string((size_t)k, 'J'); n.reset(); n.set(DataType::char8_str((index_t)b.size())); memcpy(n.data_ptr(), b.data(), b.size()); }
    for(index_t i = 0; i < n.number_of_children(); i++) pad_strings(s, n.child(i));
}
PBT(diff_laws, 90000, 2000000)
{
    quiet(); GenOpts g; g.max_depth = 3; g.max_kids = 4; g.slash_names = true; g.max_ele = 8;
    M a = gen_tree(s, g), b = s.chance(1, 8) ? gen_tree(s, g) : a; int nm = (int)s.weighted({3, 5, 2, 1}); for(int i = 0; i < nm; i++) mutate(s, b, g);
    Arena A; Node na, nb; build(s, na, a, &A); build(s, nb, b, &A); if(s.coin()) { pad_strings(s, na); pad_strings(s, nb); }
    double eps = s.pick<double>({CONDUIT_EPSILON, 0.0, 1e-6, 0.5}); bool relax = s.coin();
    if(c.want_desc) c.desc << a.str_() << " vs " << b.str_() << " eps " << eps << (relax ? " relaxed" : "");
    bool d = mdiff(a, b, false, eps, relax); c.nontrivial(a.leaves() >= 2); c.label(d ? "differ" : "same");
    Node info; if(s.coin()) { info["valid"] = "stale"; info["children/extra"].append() = "stale"; info["errors"].append() = "x"; }
    CHECK_EQ(na.diff(nb, info, eps, relax), d, "diff"); check_info(info, a, b, false, eps, relax, "");
    CHECK_EQ(nb.diff(na, info, eps, relax), d, "diff the other way around"); check_info(info, b, a, false, eps, relax, "");
    bool dc = mdiff(a, b, true, eps, relax); c.label(dc ? "incompatible" : "compatible");
    CHECK_EQ(na.diff_compatible(nb, info, eps, relax), dc, "diff_compatible"); check_info(info, a, b, true, eps, relax, "");
    CHECK_EQ(nb.diff_compatible(na, info, eps, relax), mdiff(b, a, true, eps, relax), "diff_compatible the other way around");
    if(!d) CHECK(!dc, "equal trees must be compatible");
    Node cp(na); CHECK(!na.diff(cp, info, eps, relax) && !na.diff(na, info, eps, relax) && !cp.diff_compatible(na, info, eps, relax), "a copy differs from its source");
    if(eps == CONDUIT_EPSILON && !relax) { Node i2; CHECK_EQ(na.diff(nb, i2), d, "default arguments"); CHECK_EQ(na.diff_compatible(nb, i2), dc, "default arguments"); }
    CHECK_NODE(na, a, "diff changed its source"); CHECK_NODE(nb, b, "diff changed its argument"); A.check_gaps("diff");
}
PBT(array_diff, 20000, 1000000)
{
    quiet(); GenOpts g; g.strings = false; M a = gen_leaf(s, g), b = a; int nm = (int)s.range(0, 2);
    for(int i = 0; i < nm; i++) { if(s.chance(1, 4)) { if(s.coin()) b.v.push_back(gen_val(s, b.id)); else if(!b.v.empty()) b.v.pop_back(); } else if(!b.v.empty()) b.v[s.draw(b.v.size() - 1)] = gen_val(s, b.id); }
    Arena A; DataType da, db; unsigned char *pa = A.leaf(s, a, da, false, true), *pb = A.leaf(s, b, db, false, true);
    double eps = s.pick<double>({CONDUIT_EPSILON, 0.0, 0.5}); c.nontrivial(a.v.size() >= 2); if(c.want_desc) c.desc << a.str_() << " vs " << b.str_();
    by_type(a.id, [&](auto t) { typedef decltype(t) T; DataArray<T> x(pa, da), y(pb, db); Node info; info["valid"] = 3;
        CHECK_EQ(x.diff(y, info, eps), mdiff(a, b, false, eps, false), "DataArray::diff"); check_info(info, a, b, false, eps, false, "");
        CHECK_EQ(x.diff_compatible(y, info, eps), mdiff(a, b, true, eps, false), "DataArray::diff_compatible"); check_info(info, a, b, true, eps, false, ""); });
    A.check_gaps("diff");
}
PBT_MAIN()

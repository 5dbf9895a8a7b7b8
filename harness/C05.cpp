// C05: text protocols: what is written as json, conduit_json, conduit_base64_json or yaml reads back as
// the tree it was written from, up to the protocol's documented widening.
#include "model.hpp"
#include "pbt_main.hpp"
#include <fstream>
#include <sys/stat.h>
using namespace model; using namespace conduit;

static bool nonfinite_text(const std::string &t) { if(t.empty()) return false; char *e = NULL; double v = strtod(t.c_str(), &e); return *e == 0 && !std::isfinite(v); }
static bool number_text(const std::string &t) { if(t.empty()) return true; char *e = NULL; strtod(t.c_str(), &e); if(*e == 0) return true; strtol(t.c_str(), &e, 10); return *e == 0; }
static bool as_real(int id, uint64_t v, double &x) { if(id == DataType::FLOAT64_ID) { x = bits_f64(v); return true; } if(id == DataType::FLOAT32_ID) { x = bits_f32(v); return true; } return false; }
// the value text of one element as the printing rules define it
static std::string etext(int id, uint64_t v)
{
    double x; if(as_real(id, v, x)) { char b[64]; snprintf(b, 64, "%.15g", x); if(std::isfinite(x) && !std::isfinite(strtod(b, NULL))) snprintf(b, 64, "%.17g", x); std::string r(b); if(r.find_first_of("n.e") == std::string::npos) r += ".0"; if(r.find('n') != std::string::npos) r = "\"" + r + "\""; return r; }
    std::ostringstream o; if(model::is_signed(id)) o << bits_i(id, v); else o << v; return o.str();
}
// comparison with the tolerance of 15 printed digits for 64-bit floats; everything else exact
static std::string tdiff(const M &g, const M &w, const std::string &path = "")
{
    if(g.id == DataType::FLOAT64_ID && w.id == g.id && g.v.size() == w.v.size())
    {
        for(size_t i = 0; i < g.v.size(); i++)
        {
            double a = bits_f64(g.v[i]), b = bits_f64(w.v[i]); if(std::isnan(a) && std::isnan(b)) continue;
            if(a == b && std::signbit(a) == std::signbit(b)) continue;
            if(std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 6e-15 * std::fabs(b) && std::signbit(a) == std::signbit(b)) continue;
            std::ostringstream o; o.precision(17); o << "at '" << path << "'[" << i << "]: " << a << " expected " << b; return o.str();
        }
        return "";
    }
    if(g.id != w.id || !(g.obj() || g.list()) || g.kids.size() != w.kids.size()) return model::diff(g, w, path);
    for(size_t i = 0; i < g.kids.size(); i++)
    {
        if(g.obj() && g.kids[i].first != w.kids[i].first) return model::diff(g, w, path);
        std::string r = tdiff(g.kids[i].second, w.kids[i].second, path + "/" + g.kids[i].first); if(!r.empty()) return r;
    }
    return "";
}
#define CHECK_TEXT(node, m, msg) do { M _g = model::read(node); std::string _d = tdiff(_g, m); if(!_d.empty()) { std::ostringstream _o; _o << msg << ": " << _d << "\n  got      " << _g.str_() << "\n  expected " << (m).str_() << " [" << __LINE__ << "]"; throw pbt::Fail(_o.str()); } } while(0)

enum { JSON = 0, YAML = 1 };
// what the untyped protocols keep: 64-bit numbers, strings, objects, lists; lists of numbers are arrays
static M widen(const M &m, int proto)
{
    M r;
    if(m.str()) { if(proto == YAML && m.v.empty()) return r; return m; }
    if(m.id == DataType::EMPTY_ID) return r;
    if(m.num())
    {
        if(m.v.empty()) { if(proto == JSON) r.id = DataType::LIST_ID; return r; }
        bool f = model::is_float(m.id), big = false;
        if(f && m.v.size() == 1 && proto == JSON) { double x; as_real(m.id, m.v[0], x); if(!std::isfinite(x)) { char b[64]; snprintf(b, 64, "%.15g", x); return M::String(b); } }
        for(uint64_t v : m.v) { double x; big |= !f && !model::is_signed(m.id) && (v >> 63); if(as_real(m.id, v, x)) r.v.push_back(f64_bits(x)); else r.v.push_back(model::is_signed(m.id) ? (uint64_t)bits_i(m.id, v) : v); }
        r.id = f ? DataType::FLOAT64_ID : big ? DataType::UINT64_ID : DataType::INT64_ID;
        return r;
    }
    r.id = m.id; bool nums = !m.kids.empty(), anyf = false;
    for(auto &k : m.kids)
    {
        const M &q = k.second; double x;
        bool isn = (q.num() && q.v.size() == 1) || (q.str() && nonfinite_text(q.s())); nums &= isn; if(isn && (q.str() || as_real(q.id, q.v[0], x))) anyf = true;
        r.kids.push_back({k.first, widen(q, proto)});
    }
    if(m.list() && nums)
    {
        M a; a.id = anyf ? DataType::FLOAT64_ID : DataType::INT64_ID;
        for(auto &k : m.kids) { const M &q = k.second; double x; if(q.str()) a.v.push_back(f64_bits(strtod(q.s().c_str(), NULL))); else if(as_real(q.id, q.v[0], x)) a.v.push_back(f64_bits(x)); else if(anyf) a.v.push_back(f64_bits(model::is_signed(q.id) ? (double)bits_i(q.id, q.v[0]) : (double)q.v[0])); else a.v.push_back(model::is_signed(q.id) ? (uint64_t)bits_i(q.id, q.v[0]) : q.v[0]); }
        return a;
    }
    if(proto == YAML && r.kids.empty()) return M();
    return r;
}
static std::string utf8_string(Source &s)
{
    int n = s.len(14); std::string r;
    for(int i = 0; i < n; i++) switch(s.weighted({6, 3, 1, 1}))
    {
        case 0: r += (char)('a' + s.range(0, 25)); break;
        case 1: { static const std::string odd = "\"\\/\n\t\r\b\f'{}[]:,#&*!|>%@`~ .-_\\\"u0n"; r += odd[s.draw(odd.size() - 1)]; break; }
        case 2: r += (char)s.range(1, 127); break;
        default: r += s.pick<std::string>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "//", "/*", "\\u0041", "\\n", "\\\\", "//c\n"}); break;
    }
    return r;
}
static const int64_t BIGF = 0;
struct Opt { bool yaml, typed; };
// a tree in the protocol's domain
static M gen_text_tree(Source &s, Opt o)
{
    GenOpts g; g.strings = true; g.max_kids = 5;
    M m = gen_tree(s, g);
    std::function<void(M &, bool)> fix = [&](M &q, bool inlist)
    {
        if(q.str()) { q = M::String(utf8_string(s)); if(o.yaml && number_text(q.s())) q = M::String("s" + q.s()); if(!o.typed && !o.yaml && inlist && nonfinite_text(q.s())) q = M::String("_" + q.s()); }
        if(q.id == DataType::FLOAT64_ID) for(auto &v : q.v) { double x = bits_f64(v); (void)x; }
        if(q.id == DataType::FLOAT32_ID) for(auto &v : q.v) { (void)v; }
        if(q.id == DataType::UINT64_ID && !o.typed && (q.v.size() > 1 || inlist || o.yaml)) for(auto &v : q.v) v &= 0x7fffffffffffffffull;
        if(q.obj()) { std::set<std::string> seen; for(auto &k : q.kids) { if(k.first == "dtype" && o.typed) k.first = "dt"; if(s.chance(1, 10)) { k.first = utf8_string(s); if(k.first == "dtype") k.first = "dt"; } while(!seen.insert(k.first).second) k.first += "_"; } }
        for(auto &k : q.kids) fix(k.second, q.list());
    };
    fix(m, false); return m;
}
static std::string slurp(const std::string &f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void dirty(Source &s, Node &n) { switch(s.range(0, 3)) { case 1: n["x/y"] = 1; n["dtype"] = "q"; break; case 2: n.append() = "t"; n.append() = 2.5; break; case 3: n.set(std::vector<double>(7, 2.0)); break; default: break; } }

// every way of writing gives the same text
static std::string write(Source &s, pbt::Ctx &c, const Node &n, const std::string &proto, bool yaml, index_t ind, index_t dep, const std::string &pad, const std::string &eoe)
{
    std::string t = n.to_string(proto, ind, dep, pad, eoe);
    switch(s.range(0, 9))
    {
        case 1: CHECK_EQ(yaml ? n.to_yaml(proto, ind, dep, pad, eoe) : n.to_json(proto, ind, dep, pad, eoe), t, "to_json/to_yaml"); break;
        case 2: { Node o; o["protocol"] = proto; o["indent"] = (int)ind; o["depth"] = (int)dep; o["pad"] = pad; o["eoe"] = eoe; CHECK_EQ(n.to_string(o), t, "to_string(opts)"); break; }
        case 3: { Node o; o["protocol"] = proto; o["indent"] = (int)ind; o["depth"] = (int)dep; o["pad"] = pad; o["eoe"] = eoe; CHECK_EQ(yaml ? n.to_yaml(o) : n.to_json(o), t, "to_json/to_yaml(opts)"); break; }
        case 4: { std::ostringstream o; n.to_string_stream(o, proto, ind, dep, pad, eoe); CHECK_EQ(o.str(), t, "to_string_stream"); break; }
        case 5: { std::ostringstream o; if(yaml) n.to_yaml_stream(o, proto, ind, dep, pad, eoe); else n.to_json_stream(o, proto, ind, dep, pad, eoe); CHECK_EQ(o.str(), t, "to_json_stream/to_yaml_stream"); break; }
        case 6: { std::string f = c.scratch + "/t"; n.to_string_stream(f, proto, ind, dep, pad, eoe); CHECK_EQ(slurp(f), t, "to_string_stream(file)"); break; }
        case 7: { std::string f = c.scratch + "/t"; if(yaml) n.to_yaml_stream(f, proto, ind, dep, pad, eoe); else n.to_json_stream(f, proto, ind, dep, pad, eoe); CHECK_EQ(slurp(f), t, "to_json_stream/to_yaml_stream(file)"); break; }
        case 8: { Node o; o["protocol"] = proto; o["indent"] = (int)ind; o["depth"] = (int)dep; o["pad"] = pad; o["eoe"] = eoe; std::ostringstream x; if(yaml) n.to_yaml_stream(x, o); else n.to_json_stream(x, o); CHECK_EQ(x.str(), t, "stream(opts)"); std::string f = c.scratch + "/t"; n.to_string_stream(f, o); CHECK_EQ(slurp(f), t, "file stream(opts)"); break; }
        case 9: if(yaml) { CHECK_EQ(n.to_yaml_default(), n.to_yaml(), "to_yaml_default"); CHECK_EQ(n.to_string_default(), n.to_string(), "to_string_default"); CHECK_EQ(n.to_string(), n.to_yaml("yaml", 2, 0, " ", "\n"), "defaults"); } else { CHECK_EQ(n.to_json_default(), n.to_json("json", 2, 0, " ", "\n"), "to_json_default"); } break;
        default: break;
    }
    return t;
}
static void read_back(Source &s, pbt::Ctx &c, const std::string &t, const std::string &proto, const M &want, const std::string &what)
{
    Node d; dirty(s, d);
    switch(s.range(0, 3))
    {
        case 0: d.parse(t, proto); break;
        case 1: { Generator g(t, proto); g.walk(d); break; }
        case 2: { Generator g; g.set_schema(t); g.set_protocol(proto); g.walk_external(d); break; }
        default: { std::string f = c.scratch + "/r." + proto; std::ofstream o(f.c_str(), std::ios::binary); o << t; o.close(); if(s.coin()) d.load(f, proto); else d.load(f); break; }
    }
    CHECK_TEXT(d, want, what << " read from\n" << t << "\n"); check_views(d, model::read(d), NULL, "");
}
static void save_load(Source &s, pbt::Ctx &c, const Node &n, const std::string &proto, const M &want)
{
    std::string f = c.scratch + "/f." + proto; if(s.coin()) n.save(f, proto); else n.save(f);
    Node d; dirty(s, d); if(s.coin()) d.load(f, proto); else d.load(f); CHECK_TEXT(d, want, "save/load " << proto << "\n" << slurp(f));
}

PBT(pure_json, 40000, 500000)
{
    quiet(); M m = gen_text_tree(s, Opt{false, false}); Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, false); M want = widen(m, JSON);
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    std::string t = write(s, c, n, "json", false, s.range(0, 4), s.range(0, 3), s.pick<std::string>({" ", "\t", ""}), s.pick<std::string>({"\n", "", "\n\n", " "}));
    read_back(s, c, t, "json", want, "json");
    if(s.chance(1, 4)) save_load(s, c, n, "json", want);
    CHECK_NODE(n, m, "source"); ar.check_gaps("json");
    // text of text: writing what was read reads back to the same again
    Node a, b; a.parse(t, "json"); b.parse(a.to_json(), "json"); M wa = widen(model::read(a), JSON); CHECK_TEXT(b, wa, "second round trip");
    // json is yaml: comments aside, the yaml parser accepts the same document
}
PBT(conduit_json, 40000, 500000)
{
    quiet(); M m = gen_text_tree(s, Opt{false, true}); Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, false);
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    std::string t = write(s, c, n, "conduit_json", false, s.range(0, 4), s.range(0, 3), s.pick<std::string>({" ", "\t", ""}), s.pick<std::string>({"\n", "", "\n\n", " "}));
    read_back(s, c, t, "conduit_json", m, "conduit_json");
    if(s.chance(1, 4)) save_load(s, c, n, "conduit_json", m);
    CHECK_NODE(n, m, "source"); ar.check_gaps("json");
}
PBT(base64_json, 30000, 400000)
{
    quiet(); GenOpts g; M m = gen_tree(s, g); { std::function<void(M &)> f = [&](M &q) { for(auto &k : q.kids) { if(k.first == "dtype") k.first = "dt_"; f(k.second); } }; f(m); }
    { bool dup = false; std::function<void(const M &)> f = [&](const M &q) { std::set<std::string> z; if(q.obj()) for(auto &k : q.kids) dup |= !z.insert(k.first).second; for(auto &k : q.kids) f(k.second); }; f(m); if(dup) throw pbt::Discard(); }
    Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, true);
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    std::string t = write(s, c, n, "conduit_base64_json", false, s.range(0, 4), s.range(0, 3), s.pick<std::string>({" ", "\t", ""}), s.pick<std::string>({"\n", "", "\n\n", " "}));
    Node d; dirty(s, d); if(s.coin()) d.parse(t, "conduit_base64_json"); else { Generator q(t, "conduit_base64_json"); if(s.coin()) q.walk(d); else q.walk_external(d); }
    CHECK_NODE(d, m, "conduit_base64_json\n" << t); check_views(d, m, NULL, "");
    if(s.chance(1, 4)) { std::string f = c.scratch + "/b.conduit_base64_json"; if(s.coin()) n.save(f, "conduit_base64_json"); else n.save(f); Node e; dirty(s, e); if(s.coin()) e.load(f); else e.load(f, "conduit_base64_json"); CHECK_NODE(e, m, "save/load conduit_base64_json"); }
}
PBT(external_json, 16000, 200000)
{
    quiet(); GenOpts g; g.zero_len = false; M m = gen_tree(s, g); { std::function<void(M &)> f = [&](M &q) { for(auto &k : q.kids) { if(k.first == "dtype") k.first = "dt_"; f(k.second); } }; f(m); }
    { bool dup = false; std::function<void(const M &)> f = [&](const M &q) { std::set<std::string> z; if(q.obj()) for(auto &k : q.kids) dup |= !z.insert(k.first).second; for(auto &k : q.kids) f(k.second); }; f(m); if(dup) throw pbt::Discard(); }
    Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, true);
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    std::string t = write(s, c, n, "conduit_json_external", false, s.range(0, 4), s.range(0, 3), " ", "\n");
    Node d; dirty(s, d); if(s.coin()) d.parse(t, "conduit_json_external"); else { Generator q(t, "conduit_json_external"); if(s.coin()) q.walk(d); else q.walk_external(d); }
    CHECK_NODE(d, m, "conduit_json_external\n" << t);
    std::function<void(const Node &, const Node &)> al = [&](const Node &a, const Node &b) { if(a.number_of_children() == 0 && a.dtype().number_of_elements() > 0) CHECK((const char *)a.element_ptr(0) == (const char *)b.element_ptr(0) && a.dtype().stride() == b.dtype().stride(), "external leaf refers to the source's memory"); for(index_t i = 0; i < a.number_of_children(); i++) al(a.child(i), b.child(i)); };
    al(n, d); CHECK_EQ(d.total_bytes_allocated(), (index_t)0, "nothing is copied");
}
PBT(yaml, 40000, 500000)
{
    quiet(); M m = gen_text_tree(s, Opt{true, false}); Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, false); M want = widen(m, YAML);
    if(want.id == DataType::EMPTY_ID) throw pbt::Discard();
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    std::string t = write(s, c, n, "yaml", true, s.range(1, 4), s.range(0, 3), " ", s.pick<std::string>({"\n", "\n\n"}));
    read_back(s, c, t, "yaml", want, "yaml");
    if(s.chance(1, 4)) save_load(s, c, n, "yaml", want);
    CHECK_NODE(n, m, "source"); ar.check_gaps("yaml");
}
// the summary shows all of a small tree, and of a large one the documented first and last entries
static void summary(const M &m, std::string &o, index_t ct, index_t et, index_t ind, index_t dep, const std::string &pad, const std::string &eoe)
{
    auto indent = [&]() { for(index_t i = 0; i < ind * dep; i++) o += pad; };
    if(m.obj() || m.list())
    {
        o += eoe; index_t n = (index_t)m.kids.size(), t = ct <= 0 ? n : ct, lo = (t + 1) / 2, hi = t / 2; bool cut = n > t;
        for(index_t i = 0; i < n; i++)
        {
            if(cut && i >= lo && i < n - hi) { if(i == lo) { indent(); o += "... ( skipped " + std::to_string(n - t) + (n - t == 1 ? " child )" : " children )") + eoe; } continue; }
            indent(); o += m.obj() ? m.kids[i].first + ": " : "- "; const M &k = m.kids[i].second; summary(k, o, ct, et, ind, dep + 1, pad, eoe); if(k.kids.empty()) o += eoe;
        }
        return;
    }
    if(m.id == DataType::EMPTY_ID) return;
    if(m.str()) { o += "\"" + utils::escape_special_chars(m.s()) + "\""; return; }
    index_t n = (index_t)m.v.size(), t = et <= 0 ? n : et, lo = (t + 1) / 2, hi = t / 2; bool br = n != 1, cut = n > t;
    if(br) o += "[";
    for(index_t i = 0; i < n; i++) { if(cut && i >= lo && i < n - hi) { if(i == lo) o += ", ..."; continue; } if(i) o += ", "; o += etext(m.id, m.v[i]); }
    if(br) o += "]";
}
PBT(summaries, 24000, 300000)
{
    quiet(); GenOpts g; g.max_kids = 12; g.max_ele = 20; g.odd_strings = false; M m = gen_tree(s, g); Arena ar; Node n; build(s, n, m, s.coin() ? &ar : NULL, false);
    if(c.want_desc) c.desc << m.str_();
    c.nontrivial(m.leaves() >= 2);
    index_t ct = s.range(0, 9) - 1, et = s.range(0, 9) - 1, ind = s.range(0, 4), dep = s.range(0, 2); std::string pad = s.pick<std::string>({" ", "\t", "ab"}), eoe = s.pick<std::string>({"\n", ";"});
    Node o; o["num_children_threshold"] = (int)ct; o["num_elements_threshold"] = (int)et; o["indent"] = (int)ind; o["depth"] = (int)dep; o["pad"] = pad; o["eoe"] = eoe;
    std::string want; summary(m, want, ct, et, ind, dep, pad, eoe); std::string got = n.to_summary_string(o); CHECK_EQ(got, want, "to_summary_string");
    std::ostringstream x; n.to_summary_string_stream(x, o); CHECK_EQ(x.str(), want, "to_summary_string_stream");
    std::string w2; summary(m, w2, 7, 5, 2, 0, " ", "\n"); CHECK_EQ(n.to_summary_string(), w2, "defaults"); CHECK_EQ(n.to_summary_string_default(), w2, "to_summary_string_default");
    if(s.chance(1, 8)) { std::string f = c.scratch + "/s"; n.to_summary_string_stream(f, o); CHECK_EQ(slurp(f), want, "summary file"); }
}
// text edited by hand: comments, whitespace and escapes do not change what is read
PBT(handwritten_json, 24000, 300000)
{
    quiet(); M m = gen_text_tree(s, Opt{false, false}); bool mix = false;
    auto ws = [&]() -> std::string { switch(s.weighted({6, 2, 1, 1, 1})) { case 1: return " \n\t"; case 2: return "// a \"comment\" } \\\n"; case 3: return "\r\n"; case 4: return "//\n"; default: return ""; } };
    std::function<std::string(const std::string &)> q = [&](const std::string &t) { std::string r = "\""; for(unsigned char ch : t) { char b[8]; if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch < 0x20 || (ch < 0x7f && s.chance(1, 10))) { snprintf(b, 8, s.coin() ? "\\u%04x" : "\\u%04X", ch); r += b; } else if(ch == '/' && s.coin()) r += "\\/"; else r += ch; } return r + "\""; };
    std::function<std::string(const M &)> w = [&](const M &x) -> std::string {
        std::string r = ws();
        if(x.obj()) { r += "{"; for(size_t i = 0; i < x.kids.size(); i++) r += (i ? "," : "") + ws() + q(x.kids[i].first) + ws() + ":" + w(x.kids[i].second); r += "}"; }
        else if(x.list()) { r += "["; for(size_t i = 0; i < x.kids.size(); i++) r += (i ? "," : "") + w(x.kids[i].second); r += "]"; }
        else if(x.str()) r += q(x.s()); else if(!x.leaf()) r += "null";
        else if(x.v.size() == 1) r += etext(x.id, x.v[0]); else { r += "["; for(size_t i = 0; i < x.v.size(); i++) r += (i ? "," : "") + ws() + etext(x.id, x.v[i]) + ws(); r += "]"; }
        return r + ws(); };
    std::string t = w(m); (void)mix;
    if(c.want_desc) c.desc << t;
    c.nontrivial(m.leaves() >= 2);
    Node d; d.parse(t, "json"); M want = widen(m, JSON); CHECK_TEXT(d, want, "json with comments and escapes:\n" << t);
}
PBT_MAIN()

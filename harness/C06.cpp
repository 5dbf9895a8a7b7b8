// C06: any text given to the parsers is either read or reported as a conduit::Error; a failed parse leaves an empty
// node; a successful one a consistent tree.  Valid documents are accepted, truncated ones are not.
#include "model.hpp"
#include "pbt_main.hpp"
using namespace model; using namespace conduit;

static std::string jstr(Source &s, const std::string &t)
{ std::string r = "\""; for(unsigned char ch : t) { char b[8]; if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch < 0x20) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } (void)s; return r + "\""; }
// pure json documents, with a count of their nodes
static std::string gen_json(Source &s, int depth, int &count)
{
    count++;
    int k = depth >= 4 ? s.weighted({3, 2, 1, 1, 1, 0, 0}) : depth == 0 ? s.weighted({1, 1, 0, 0, 0, 6, 3}) : s.weighted({4, 3, 1, 1, 1, 4, 3});
    GenOpts g; g.odd_strings = true;
    switch(k)
    {
        case 0: return s.pick<std::string>({"0", "1", "-7", "12345", "3.5", "-0.25e-3", "1e10", "2147483648", "-9223372036854775808", "9223372036854775807", "1E+2", "-0", "0.0"});
        case 1: return jstr(s, gen_string(s, g));
        case 2: return "true"; case 3: return "false"; case 4: return "null";
        case 5: { std::string r = "{"; int n = s.len(5); std::set<std::string> used; bool first = true; for(int i = 0; i < n; i++) { std::string nm = gen_name(s, g); if(!used.insert(nm).second) continue; r += (first ? "" : ",") + std::string(s.chance(1, 5) ? "\n " : "") + jstr(s, nm) + ":" + gen_json(s, depth + 1, count); first = false; } return r + "}"; }
        default: { std::string r = "["; int n = s.len(5); for(int i = 0; i < n; i++) r += (i ? ", " : "") + gen_json(s, depth + 1, count); return r + "]"; }
    }
}
static std::string leaf_schema(Source &s)
{
    static const std::vector<std::string> ty = {"int32", "int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "char8_str", "int", "double", "bogus", "object", "list", "empty", "short", "unsigned long"};
    if(s.chance(1, 4)) return "\"" + s.pick(ty) + "\"";
    std::string r = "{\"dtype\":\"" + s.pick(ty) + "\"";
    auto num = [&]() { return s.chance(1, 6) ? s.pick<std::string>({"-1", "1.5", "\"3\"", "null", "[1]", "{}", "true", "-2.5"}) : std::to_string(s.range(0, 6)); };
    if(s.coin()) r += std::string(",\"") + (s.coin() ? "number_of_elements" : "length") + "\":" + num();
    if(s.chance(1, 3)) r += ",\"offset\":" + num();
    if(s.chance(1, 3)) r += ",\"stride\":" + (s.chance(1, 5) ? num() : std::to_string(s.range(8, 16)));
    if(s.chance(1, 3)) r += ",\"endianness\":" + s.pick<std::string>({"\"big\"", "\"little\"", "\"default\"", "3", "null"});
    if(s.coin()) { int c = 0; r += ",\"value\":" + (s.coin() ? "[" + std::to_string(s.range(0, 300)) + ",2,3]" : s.coin() ? gen_json(s, 3, c) : s.pick<std::string>({"-1", "300", "1.5", "\"nan\"", "\"abc\"", "true", "[]", "[1,2.5]", "[\"inf\",1]", "[1,\"x\"]", "[-1]", "[18446744073709551615]"})); }
    return r + "}";
}
static std::string gen_schema(Source &s, int depth)
{
    int k = depth >= 3 ? 0 : depth == 0 ? s.weighted({1, 4, 2, 1}) : s.weighted({5, 2, 1, 1}); GenOpts g;
    if(k == 0) return leaf_schema(s);
    if(k == 1) { std::string r = "{"; int n = s.len(4); for(int i = 0; i < n; i++) r += (i ? "," : "") + jstr(s, gen_name(s, g)) + ":" + gen_schema(s, depth + 1); return r + "}"; }
    if(k == 2) { std::string r = "["; int n = s.len(4); for(int i = 0; i < n; i++) r += (i ? "," : "") + gen_schema(s, depth + 1); return r + "]"; }
    return "{\"dtype\":" + gen_schema(s, depth + 1) + (s.coin() ? ",\"length\":" + s.pick<std::string>({"0", "1", "3", "-1", "2.5", "{\"reference\":\"../a\"}", "{\"reference\":\"x\"}", "{\"reference\":3}", "{}", "null"}) : "") + "}";
}
static std::string gen_yaml(Source &s, int depth, int ind)
{
    GenOpts g; g.odd_names = false; std::string pre(ind, ' ');
    int k = depth >= 4 ? 0 : depth == 0 ? s.weighted({1, 6, 3}) : s.weighted({5, 3, 2});
    if(k == 0) return s.pick<std::string>({" 1", " -3.5", " abc", " \"q\\n\"", " 'single'", " [1, 2, 3]", " [a, b]", " {x: 1, y: [2]}", "", " ~", " |\n" + pre + "  text\n" + pre + "  more", " &an 5", " *an", " !!str 5", " 1.5e3", " .nan", " # c", " ? x", " \"\"", " []", " {}"}) + "\n";
    std::string r = "\n"; int n = 1 + s.len(4);
    for(int i = 0; i < n; i++) r += pre + (k == 1 ? gen_name(s, g) + ":" : "-") + gen_yaml(s, depth + 1, ind + 2);
    return r;
}
static std::string mutate(Source &s, std::string t, bool schema)
{
    static const std::vector<std::string> js = {"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "-1", "1.5", "\"a\"", "0", "//", "\n", " ", "\\u12", "e", "-", ".", "abc", "\xff", "\x01", "'", "&", "*", "- ", ": ", "#", "%", "|", "?", "!", "---", "...", "\t"};
    static const std::vector<std::string> sc = {"\"dtype\"", "\"length\"", "\"number_of_elements\"", "\"offset\"", "\"stride\"", "\"value\"", "\"endianness\"", "\"reference\"", "\"int64\"", "\"char8_str\"", "\"big\"", "\"object\"", "{\"dtype\":\"int32\"}", "dtype:", "value: ", "length: "};
    int n = (int)s.range(0, 4);
    for(int i = 0; i < n && !t.empty(); i++)
    {
        size_t p = s.draw(t.size()), q = std::min(t.size(), p + (size_t)s.range(1, 9));
        switch(s.range(0, 5))
        {
            case 0: t.erase(p, q - p); break;
            case 1: t.insert(p, s.pick(js)); break;
            case 2: t.insert(p, schema ? s.pick(sc) : s.pick(js)); break;
            case 3: t.insert(s.draw(t.size()), t.substr(p, q - p)); break;
            case 4: if(p < t.size()) t[p] = (char)s.range(1, 255); break;
            default: t.resize(p); break;
        }
    }
    return t;
}
static bool outcome(pbt::Ctx &c, const std::string &t, const std::string &proto, Node &d)
{
    bool ok = true;
    try { d.parse(t, proto); } catch(const conduit::Error &) { ok = false; }
    c.label(proto + (ok ? " accepted" : " rejected"));
    if(!ok) { CHECK(d.dtype().is_empty() && d.number_of_children() == 0, "a failed parse left something in the node: " << t); d.set(1.0); CHECK(d.as_double() == 1.0, "node unusable after a failed parse"); }
    else { M m = model::read(d); check_views(d, m, NULL, ""); Node e(d); CHECK_NODE(e, m, "copy of a parsed node"); std::string a = d.to_json(), b = d.to_yaml(), q = d.to_json("conduit_base64_json"); (void)a; (void)b; (void)q; d.reset(); }
    return ok;
}
static void dirty(Source &s, Node &n) { switch(s.range(0, 2)) { case 1: n["x/y"] = 1; n["dtype"] = "q"; break; case 2: n.append() = "t"; n.append() = 2.5; break; default: break; } }
static bool unsafe(const std::string &t)
{   // sizes are bounded so that no case asks for absurd amounts of memory; element_bytes and address are outside the domain
    if(t.find("element_bytes") != std::string::npos || t.find("address") != std::string::npos) return true;
    int run = 0; for(char ch : t) { if(ch >= '0' && ch <= '9') { if(++run > 5) return true; } else run = 0; }
    for(size_t i = 0; i + 1 < t.size(); i++) if((t[i] == 'e' || t[i] == 'E') && i > 0 && isdigit((unsigned char)t[i - 1])) return true;
    return false;
}
PBT(json_text, 60000, 2000000)
{
    quiet(); int cnt = 0; std::string v = gen_json(s, 0, cnt), t = mutate(s, v, false);
    if(c.want_desc) c.desc << t;
    c.nontrivial(t != v && cnt >= 3);
    Node d; dirty(s, d); bool ok = outcome(c, t, "json", d);
    if(t == v) CHECK(ok, "a valid JSON document was rejected: " << t);
    if((v[0] == '{' || v[0] == '[') && v.size() > 1) { std::string cut = v.substr(0, s.draw(v.size() - 2) + 1); Node e; dirty(s, e); CHECK(!outcome(c, cut, "json", e), "a truncated document was accepted: " << cut << " of " << v); }
    if(s.chance(1, 4)) { Node e; outcome(c, t, "conduit_base64_json", e); }
}
PBT(schema_text_fuzz, 60000, 2000000)
{
    quiet(); std::string v = gen_schema(s, 0), t = mutate(s, v, true);
    if(unsafe(t)) throw pbt::Discard();
    if(c.want_desc) c.desc << t;
    c.nontrivial(t.size() >= 20);
    Node d; dirty(s, d); bool ok = outcome(c, t, "conduit_json", d);
    Schema x; bool sok = true; try { x.set(t); } catch(const conduit::Error &) { sok = false; }
    if(sok) { std::string a = x.to_json(); (void)a; Schema y(x); CHECK(y.equals(x) && x.equals(y), "schema"); }
    Node e; dirty(s, e); bool ok2 = true; try { Generator g(t, "conduit_json"); g.walk_external(e); } catch(const conduit::Error &) { ok2 = false; }
    if(t.find("stride") == std::string::npos) CHECK_EQ(ok, ok2, "walk and walk_external differ on acceptance: " << t);
    if(!ok2) CHECK(e.dtype().is_empty(), "failed walk_external left something");
    else { bool over = false; std::function<void(const Node &)> ov = [&](const Node &q) { over |= q.dtype().number_of_elements() > 1 && q.dtype().stride() < q.dtype().element_bytes(); for(index_t i = 0; i < q.number_of_children(); i++) ov(q.child(i)); }; ov(e); if(over) return; Node f; f.parse(t, "conduit_json"); M a = model::read(f), b = model::read(e); std::string df = model::diff(b, a); CHECK(df.empty(), "walk and walk_external: " << df << " for " << t); }
    // the same document as conduit_yaml
    Node yv; dirty(s, yv); outcome(c, t, "conduit_yaml", yv);
    // base64: a valid envelope with generated schema and data
    Node b; std::string data; int nb = (int)s.range(0, 24); for(int i = 0; i < nb; i++) data += "ABCDwxyz0189+/=="[s.draw(15)];
    std::string env = "{\"schema\":" + t + ",\"data\":{\"base64\":\"" + data + "\"}}"; if(s.coin()) env = mutate(s, env, true);
    if(unsafe(env) || env.find("char8") != std::string::npos || env.find("stride") != std::string::npos) return;   // string contents come from the data: the terminator is up to the writer
    dirty(s, b); outcome(c, env, "conduit_base64_json", b);
}
PBT(yaml_text, 40000, 1500000)
{
    quiet(); std::string v = gen_yaml(s, 0, 0), t = mutate(s, v, false);
    if(c.want_desc) c.desc << t;
    c.nontrivial(t.size() >= 12);
    Node d; dirty(s, d); outcome(c, t, "yaml", d);
    if(unsafe(t)) return;
    Node e; dirty(s, e); outcome(c, t, "conduit_yaml", e);
    Schema x; try { Generator g(t, "conduit_yaml"); g.walk(x); } catch(const conduit::Error &) {}
}
PBT_MAIN()

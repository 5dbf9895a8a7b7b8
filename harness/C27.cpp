// C27: the utilities everything else is built from: splitting and joining, escaping,
// base64, formatting, hashing, message handlers, files.
#include "pbt_main.hpp"
#include "model.hpp"
#include "conduit_utils.h"
#include <dirent.h>
#include <fstream>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace model;
// the oracle for the file functions: plain system calls
namespace fs
{
struct St { bool ok; mode_t m; off_t n; };
static St st(const std::string &p) { struct stat b; St r = {::stat(p.c_str(), &b) == 0, 0, 0}; if(r.ok) { r.m = b.st_mode & S_IFMT; r.n = b.st_size; } return r; }
static bool lnk(const std::string &p) { struct stat b; return ::lstat(p.c_str(), &b) == 0 && S_ISLNK(b.st_mode); }
static bool there(const std::string &p) { struct stat b; return ::lstat(p.c_str(), &b) == 0; }
static bool dir(const St &s) { return s.ok && s.m == S_IFDIR; }
static bool reg(const St &s) { return s.ok && s.m == S_IFREG; }
static std::vector<std::string> ls(const std::string &p)
{ std::vector<std::string> r; DIR *d = opendir(p.c_str()); if(!d) return r; while(dirent *e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") r.push_back(n); } closedir(d); return r; }
static void remove_all(const std::string &p) { if(!lnk(p) && dir(st(p))) { for(auto &x : ls(p)) remove_all(p + "/" + x); rmdir(p.c_str()); } else unlink(p.c_str()); }
static void below(const std::string &p, std::vector<std::string> &r) { for(auto &x : ls(p)) { std::string y = p + "/" + x; r.push_back(y); if(!lnk(y) && dir(st(y))) below(y, r); } }
}
namespace cu = conduit::utils;

static std::string gstr(Source &s, const std::string &alpha, int maxn)
{
    std::string r; int n = s.len(maxn);
    for(int i = 0; i < n; i++) r += s.chance(1, 6) ? (char)s.range(1, 255) : alpha[s.draw(alpha.size() - 1)];
    return r;
}
static std::string q(const std::string &t) { return pbt::json_str(t); }

// ---------------------------------------------------------------- splitting and joining
static void msplit(const std::string &t, const std::string &sep, std::string &a, std::string &b, bool last)
{
    size_t f = std::string::npos;
    for(size_t i = 0; i + sep.size() <= t.size(); i++) if(t.compare(i, sep.size(), sep) == 0) { f = i; if(!last) break; }
    a = t; b = "";
    if(f == std::string::npos) return;
    std::string l = t.substr(0, f), r = t.substr(f + sep.size());
    if(last) { a = r; b = l; } else { a = l; b = r; }
}
PBT(split, 40000, 800000)
{
    std::string sep = s.pick({std::string("/"), std::string(":"), std::string("_"), std::string("::"), std::string("aba"), std::string("//")});
    std::string t = gstr(s, "ab/:_C\\ .", 14); if(s.chance(1, 4)) { t = std::string(1, "CDz"[s.draw(2)]) + ":\\" + t; }
    c.desc << "split " << q(t) << " by " << q(sep); c.nontrivial(t.find(sep) != std::string::npos);
    std::string a = "old", b = "old", x, y;
    cu::split_string(t, sep, a, b); msplit(t, sep, x, y, false);
    CHECK(a == x && b == y, "split_string gives " << q(a) << ", " << q(b) << " instead of " << q(x) << ", " << q(y));
    a = b = "old"; cu::rsplit_string(t, sep, a, b); msplit(t, sep, x, y, true);
    CHECK(a == x && b == y, "rsplit_string gives " << q(a) << ", " << q(b) << " instead of " << q(x) << ", " << q(y));
    a = b = "old"; cu::split_path(t, a, b); msplit(t, "/", x, y, false); CHECK(a == x && b == y, "split_path gives " << q(a) << ", " << q(b));
    a = b = "old"; cu::rsplit_path(t, a, b); msplit(t, "/", x, y, true); CHECK(a == x && b == y, "rsplit_path gives " << q(a) << ", " << q(b));
    a = b = "old"; cu::split_file_path(t, a, b); msplit(t, cu::file_path_separator(), x, y, false); CHECK(a == x && b == y, "split_file_path gives " << q(a) << ", " << q(b));
    a = b = "old"; cu::rsplit_file_path(t, a, b); msplit(t, cu::file_path_separator(), x, y, true); CHECK(a == x && b == y, "rsplit_file_path gives " << q(a) << ", " << q(b));
    // with a separator: a leading drive letter is never split
    bool drive = sep == ":" && t.size() > 2 && t[1] == ':' && t[2] == '\\';
    std::string d = drive ? t.substr(0, 3) : "", rest = drive ? t.substr(3) : t;
    a = b = "old"; cu::split_file_path(t, sep, a, b); msplit(rest, sep, x, y, false); x = d + x;
    CHECK(a == x && b == y, "split_file_path(sep) gives " << q(a) << ", " << q(b) << " instead of " << q(x) << ", " << q(y));
    a = b = "old"; cu::rsplit_file_path(t, sep, a, b); msplit(rest, sep, x, y, true);
    if(drive) { if(rest.find(sep) == std::string::npos) x = d + x; else y = d + y; }
    if(!(drive && rest.find(sep) == rest.rfind(sep) && rest.compare(0, 1, ":") == 0))     // "C:\:x" is ambiguous
        CHECK(a == x && b == y, "rsplit_file_path(sep) gives " << q(a) << ", " << q(b) << " instead of " << q(x) << ", " << q(y));
    // all the pieces
    std::string nz; for(char ch : t) if(ch) nz += ch;
    std::vector<std::string> sv, want; std::string cur;
    for(char ch : nz) { if(ch == sep[0]) { if(!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; }
    if(!cur.empty()) want.push_back(cur);
    cu::split_string(nz, sep[0], sv); CHECK(sv == want, "split_string(char) gives " << sv.size() << " pieces instead of " << want.size());
    // trim
    std::string w = s.coin() ? " \t\n\r\f\v" : gstr(s, "ab/ ", 3); bool dflt = w == " \t\n\r\f\v";
    std::string tt = (s.coin() ? " \t" : "") + t + (s.coin() ? "\n " : ""), g = tt; 
    std::string wz = w.c_str();
    if(dflt) cu::trim_string(g); else cu::trim_string(g, wz.c_str());
    size_t i0 = 0, i1 = tt.size(); while(i0 < i1 && wz.find(tt[i0]) != std::string::npos) i0++; while(i1 > i0 && wz.find(tt[i1 - 1]) != std::string::npos) i1--;
    CHECK(g == tt.substr(i0, i1 - i0), "trim_string of " << q(tt) << " by " << q(w) << " gives " << q(g));
}
PBT(join, 20000, 400000)
{
    std::string l = gstr(s, "ab/.", 6), r = gstr(s, "ab/.", 6);
    c.desc << q(l) << " + " << q(r); c.nontrivial(!l.empty() && !r.empty());
    std::string want = l; if(!l.empty() && l.back() != '/' && !r.empty()) want += "/"; want += r;
    CHECK(cu::join_path(l, r) == want, "join_path gives " << q(cu::join_path(l, r)) << " instead of " << q(want));
    want = l; if(!l.empty() && l.back() != '/') want += "/"; want += r;
    if(!r.empty()) CHECK(cu::join_file_path(l, r) == want, "join_file_path gives " << q(cu::join_file_path(l, r)) << " instead of " << q(want));
    // joined paths split into the parts again
    if(!l.empty() && l.find('/') == std::string::npos && !r.empty())
    { std::string a, b; cu::split_path(cu::join_path(l, r), a, b); CHECK(a == l && b == r, "split_path(join_path) gives " << q(a) << ", " << q(b)); }
    if(!r.empty() && r.find('/') == std::string::npos && !l.empty() && l.back() != '/')
    { std::string a, b; cu::rsplit_path(cu::join_path(l, r), a, b); CHECK(a == r && b == l, "rsplit_path(join_path) gives " << q(a) << ", " << q(b)); }
    std::ostringstream o; index_t in = s.range(0, 4), de = s.range(0, 4); std::string pad = s.coin() ? " " : gstr(s, "ab", 3), w2;
    cu::indent(o, in, de, pad); for(index_t i = 0; i < in * de; i++) w2 += pad; CHECK(o.str() == w2, "indent writes " << q(o.str()));
}

// ---------------------------------------------------------------- escaping
PBT(escape, 30000, 600000)
{
    std::string t = gstr(s, "ab\"\\/\n\t\b\f\r\x01\x1f\x7fun0041", 20); if(s.chance(1, 10) && !t.empty()) t[s.draw(t.size() - 1)] = '\0';
    c.desc << q(t); c.nontrivial(t.find_first_of("\"\\\n\t\b\f\r") != std::string::npos);
    std::string e = cu::escape_special_chars(t), u = cu::unescape_special_chars(e);
    CHECK(u == t, "unescape(escape) of " << q(t) << " gives " << q(u) << " via " << q(e));
    // the text between quotes is a JSON string: no bare quote, no control chars, no unknown escape
    for(size_t i = 0; i < e.size(); i++)
    {
        unsigned char ch = (unsigned char)e[i];
        CHECK(ch >= 0x20 && ch != '"', "escaped text " << q(e) << " holds a character that has to be escaped");
        if(ch == '\\')
        {
            CHECK(i + 1 < e.size() && strchr("\"\\/bfnrtu", e[i + 1]), "escaped text " << q(e) << " holds an escape JSON does not have");
            if(e[i + 1] == 'u') { CHECK(i + 5 < e.size(), "short \\u escape"); for(int k = 2; k < 6; k++) CHECK(isxdigit((unsigned char)e[i + k]), "bad \\u escape in " << q(e)); i += 5; } else i++;
        }
    }
    // any text can be unescaped; text without a backslash is left alone
    std::string v = cu::unescape_special_chars(t);
    if(t.find('\\') == std::string::npos) CHECK(v == t, "unescape changed a text without escapes");
    CHECK(v.size() <= t.size(), "unescaping made the text longer");
    { std::string x = "\\/"; CHECK(cu::unescape_special_chars(x + t) == "/" + v, "an escaped slash is unescaped"); }
}

// ---------------------------------------------------------------- base64
static std::string ref64(const std::vector<unsigned char> &v)
{
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
    for(size_t i = 0; i < v.size(); i += 3)
    {
        unsigned x = v[i] << 16; if(i + 1 < v.size()) x |= v[i + 1] << 8; if(i + 2 < v.size()) x |= v[i + 2];
        r += A[x >> 18]; r += A[(x >> 12) & 63]; r += i + 1 < v.size() ? A[(x >> 6) & 63] : '='; r += i + 2 < v.size() ? A[x & 63] : '=';
    }
    return r;
}
PBT(base64, 20000, 400000)
{
    std::vector<unsigned char> v((size_t)s.len(s.chance(1, 20) ? 400 : 40)); for(auto &x : v) x = (unsigned char)s.draw(255);
    c.desc << v.size() << " bytes"; c.nontrivial(v.size() > 1);
    std::string want = ref64(v);
    index_t eb = cu::base64_encode_buffer_size((index_t)v.size());
    CHECK(eb >= (index_t)want.size() + 1, "base64_encode_buffer_size is too small: " << eb << " for " << want.size() << " characters");
    std::unique_ptr<unsigned char[]> in(new unsigned char[v.size() ? v.size() : 1]); std::copy(v.begin(), v.end(), in.get());
    std::unique_ptr<char[]> e(new char[(size_t)eb]); memset(e.get(), '#', (size_t)eb);
    cu::base64_encode(in.get(), (index_t)v.size(), e.get());
    CHECK(memchr(e.get(), 0, (size_t)eb) != NULL, "the encoded text is not terminated");
    CHECK(std::string(e.get()) == want, "base64_encode gives " << q(e.get()) << " instead of " << q(want));
    index_t db = cu::base64_decode_buffer_size((index_t)want.size());
    CHECK(db >= (index_t)v.size(), "base64_decode_buffer_size is too small: " << db << " for " << v.size());
    std::unique_ptr<char[]> src(new char[want.size() ? want.size() : 1]); std::copy(want.begin(), want.end(), src.get());
    std::unique_ptr<unsigned char[]> d(new unsigned char[(size_t)db]);
    cu::base64_decode(src.get(), (index_t)want.size(), d.get());
    CHECK(memcmp(d.get(), v.data(), v.size()) == 0, "base64_decode gives other bytes");
}

// ---------------------------------------------------------------- numbers and texts
PBT(numbers, 30000, 600000)
{
    uint64_t b = s.coin() ? gen_val(s, DataType::FLOAT64_ID) : (uint64_t)f64_bits((double)s.range(-1000, 1000) / (double)s.pick({1, 2, 8, 10, 1000}));
    double d = bits_f64(b); std::string t = cu::float64_to_string(d);
    c.desc << t; c.nontrivial(d != 0);
    if(std::isnan(d)) CHECK(t.find("nan") != std::string::npos, "float64_to_string of a nan is " << t);
    else
    {
        double back = strtod(t.c_str(), NULL);
        CHECK(back == d || std::fabs(back - d) <= 1e-14 * std::fabs(d) || std::fabs(d) < 1e-300, "float64_to_string of " << d << " is " << t);
        CHECK((std::signbit(back) == std::signbit(d)), "float64_to_string loses the sign of " << d);
        if(std::isfinite(d)) CHECK(t.find_first_of(".e") != std::string::npos, "float64_to_string of " << d << " is " << t << ", which reads as an integer");
    }
    // integers
    int64_t v = s.chance(1, 2) ? s.range(-100, 100) : (int64_t)s.bits();
    CHECK(cu::string_to_value<conduit::int64>(std::to_string(v)) == v, "string_to_value gives another integer for " << v);
    CHECK(cu::hex_string_to_value<conduit::uint64>(cu::to_hex_string((conduit::uint64)v)) == (uint64_t)v, "hex round trip of " << v);
    int32_t w = (int32_t)v; CHECK(cu::string_is_integer(std::to_string(w)), "string_is_integer(" << w << ") is false");
    std::string no = s.pick({std::string(""), std::string("a"), std::string("-"), std::string("_1"), std::string(" x"), std::string("file7")}); CHECK(!cu::string_is_integer(no), "string_is_integer(" << q(no) << ") is true");
    // casts that keep the value
    CHECK((cu::value_fits<int64_t, int8_t>(v)) == (v >= -128 && v <= 127), "value_fits int8 " << v);
    CHECK((cu::value_fits<int64_t, conduit::uint16>(v)) == (v >= 0 && v <= 65535), "value_fits uint16 " << v);
    CHECK((cu::value_fits<int64_t, conduit::int32>(v)) == (v >= INT32_MIN && v <= INT32_MAX), "value_fits int32 " << v);
    CHECK((cu::value_fits<uint64_t, int64_t>((uint64_t)v)) == (v >= 0), "value_fits uint64 to int64 " << (uint64_t)v);
    CHECK((cu::value_fits<int64_t, uint64_t>(v)) == (v >= 0), "value_fits int64 to uint64 " << v);
    // factors: primes whose product is the number
    index_t num = s.range(1, s.coin() ? 64 : 20000); std::vector<index_t> f = cu::factor(num); index_t prod = 1;
    for(index_t x : f) prod *= x;
    CHECK(prod == num, "the factors of " << num << " multiply to " << prod);
    for(size_t i = 0; i < f.size(); i++) { index_t x = f[i]; if(x == 1) { CHECK(num == 1 || f.size() == 2, "1 among the factors of " << num); continue; } for(index_t k = 2; k * k <= x; k++) CHECK(x % k != 0, "factor " << x << " of " << num << " is not prime"); }
}

// ---------------------------------------------------------------- hashes
PBT(hashes, 6000, 120000)
{
    std::string k = gstr(s, "abcdefgh", 40); for(auto &ch : k) if(!ch) ch = 'z';
    unsigned init = (unsigned)s.draw(s.coin() ? 0 : 0xffffffffu);
    c.desc << q(k) << " " << init; c.nontrivial(k.size() > 1);
    unsigned h = cu::hash(k, init);
    CHECK(cu::hash(k.c_str(), (unsigned)k.size(), init) == h && (init != 0 || cu::hash(k.c_str()) == h) && cu::hash(k, init) == h, "the overloads of hash differ");
    { std::string copy = std::string("xyz1234567") + k + "tail"; for(unsigned off = 10; off == 10; off++) CHECK(cu::hash(copy.c_str() + off, (unsigned)k.size(), init) == h, "hash depends on where the bytes are"); }
    // changes of single bits change it (one accident is let pass)
    int same = 0; for(size_t i = 0; i < k.size() * 8; i++) { std::string m = k; m[i / 8] ^= (char)(1 << (i % 8)); if(cu::hash(m.c_str(), (unsigned)m.size(), init) == h) same++; }
    CHECK(same <= 1, same << " changes of one bit give the same hash");
    same = 0; for(unsigned i = 0; i < 8; i++) if(cu::hash(k, init + 1 + i) == h) same++;
    CHECK(same <= 1, "hash does not depend on initval");
    same = 0; for(unsigned i = 0; i < k.size(); i++) if(cu::hash(k.c_str(), i, init) == h) same++;
    CHECK(same <= 1, "hash does not depend on the length");
    // ids
    std::vector<index_t> v((size_t)s.len(8) + 1); for(auto &x : v) x = s.coin() ? s.range(-3, 60) : (index_t)s.bits();
    std::vector<conduit::uint64> u(v.size()); std::vector<double> f(v.size()); for(size_t i = 0; i < v.size(); i++) { u[i] = (conduit::uint64)v[i]; memcpy(&f[i], &v[i], 8); }
    unsigned n = (unsigned)v.size(); conduit::uint64 hv = cu::hash(v.data(), n);
    CHECK(cu::hash(u.data(), n) == hv && cu::hash(f.data(), n) == hv, "the id hash depends on the type of the same bytes");
    same = 0; for(unsigned i = 0; i < n; i++) for(int d = 1; d < 5; d++) { std::vector<index_t> m = v; m[i] += d; if(cu::hash(m.data(), n) == hv) same++; }
    CHECK(same <= 1, same << " changes of an id give the same hash");
    { std::vector<index_t> m = v; m.insert(m.begin(), 0); CHECK(cu::hash(m.data(), n + 1) != hv, "a leading 0 does not change the id hash"); }
    if(n > 1 && v[0] != v[1]) { std::vector<index_t> m = v; std::swap(m[0], m[1]); bool d1 = cu::hash(m.data(), n) != hv; m = v; m[0] += 7; std::swap(m[0], m[1]); CHECK(d1 || cu::hash(m.data(), n) != hv, "the id hash does not depend on the order"); }
}

// ---------------------------------------------------------------- format
struct Arg { M m; size_t at; };
static std::string fmt_ref(const M &m, size_t at, int style, int width, std::string &spec)
{
    std::ostringstream o; char buf[400];
    if(m.str()) { std::string t = m.s(); std::string p((size_t)width > t.size() ? width - t.size() : 0, ' ');
        // widths count characters: only plain text is padded
        if(style == 1) { spec = ":>" + std::to_string(width); return p + t; } if(style == 2) { spec = ":<" + std::to_string(width); return t + p; } spec = ""; return t; }
    if(is_float(m.id))
    {
        double d = m.id == DataType::FLOAT32_ID ? (double)bits_f32(m.v[at]) : bits_f64(m.v[at]);
        if(style == 1) { spec = ":." + std::to_string(width % 9) + "f"; snprintf(buf, sizeof buf, "%.*f", width % 9, d); return buf; }
        spec = ":." + std::to_string(width % 9) + "e"; snprintf(buf, sizeof buf, "%.*e", width % 9, d); return buf;
    }
    bool sg = is_signed(m.id); int64_t v = bits_i(m.id, m.v[at]); uint64_t uv = mask(m.id, m.v[at]);
    if(style == 1) { spec = ":0" + std::to_string(width) + "d"; if(sg) snprintf(buf, sizeof buf, "%0*lld", width, (long long)v); else snprintf(buf, sizeof buf, "%0*llu", width, (unsigned long long)uv); return buf; }
    if(style == 2) { spec = ":" + std::to_string(width); if(sg) snprintf(buf, sizeof buf, "%*lld", width, (long long)v); else snprintf(buf, sizeof buf, "%*llu", width, (unsigned long long)uv); return buf; }
    if(style == 3 && !(sg && v < 0)) { spec = ":x"; snprintf(buf, sizeof buf, "%llx", (unsigned long long)uv); return buf; }
    spec = ""; if(sg) o << v; else o << uv; return o.str();
}
PBT(format, 20000, 400000)
{
    quiet();
    bool named = s.coin(), maps = s.coin(); int na = (int)s.range(1, 4); index_t mi = maps ? s.range(0, 4) : 0;
    Node args; args.set(named ? DataType::object() : DataType::list());
    Arena ar; GenOpts g; std::vector<M> ms; std::vector<std::string> nm;
    for(int i = 0; i < na; i++)
    {
        M m; std::string name = std::string(1, (char)('a' + i)) + (s.coin() ? "_x" : ""); nm.push_back(name);
        Node &a = named ? args[name] : args.append();
        if(s.chance(1, 4))
        {
            std::string t; int n = s.len(8); for(int k = 0; k < n; k++) t += (char)s.range('a', 'z'); m = M::String(t);
            if(maps) { for(index_t k = 0; k <= mi + 1; k++) a.append().set(k == mi ? t : t + "x"); } else a.set(t);
        }
        else
        {
            m.id = NUM_IDS[s.draw(9)]; size_t cnt = maps ? (size_t)(mi + 1 + s.range(0, 2)) : (size_t)s.range(1, 2);
            for(size_t k = 0; k < cnt; k++) m.v.push_back(is_float(m.id) ? (m.id == DataType::FLOAT32_ID ? f32_bits((float)s.range(-999, 999) / 8) : f64_bits((double)s.range(-99999, 99999) / 16)) : mask(m.id, gen_val(s, m.id)));
            DataType dt; unsigned char *p = ar.leaf(s, m, dt, false, true);
            if(s.coin()) a.set_external(dt, p); else by_type(m.id, SetPtr(a, m));
        }
        ms.push_back(m);
    }
    std::string pat, want; int np = (int)s.range(1, 5); bool autonum = s.coin();
    for(int k = 0; k < np; k++)
    {
        std::string lit; int n = s.len(5); for(int x = 0; x < n; x++) lit += "ab/_.0"[s.draw(5)]; pat += lit; want += lit;
        if(s.chance(1, 8)) { pat += "{{x}}"; want += "{x}"; }
        int i = (!named && autonum) ? k : (int)s.range(0, na - 1); if(i >= na) break;
        std::string spec, v = fmt_ref(ms[i], ms[i].str() ? 0 : (size_t)mi, (int)s.range(0, 3), (int)s.range(1, 12), spec);
        pat += "{" + (named ? nm[i] : autonum ? std::string() : std::to_string(i)) + spec + "}"; want += v;
    }
    c.desc << q(pat) << (maps ? " maps, index " : "") << (maps ? std::to_string(mi) : "") << "\n" << args.to_yaml(); c.nontrivial(np > 1 || na > 1);
    Node before; before.set(args); Node info;
    std::string got = maps ? cu::format(pat, args, mi) : cu::format(pat, args);
    CHECK(got == want, "format gives " << q(got) << " instead of " << q(want));
    CHECK(!before.diff(args, info, 0.0), "format changed its arguments");
    // wrong uses raise conduit::Error
    int w = (int)s.range(0, 6); bool threw = false; Node none;
    try
    {
        switch(w)
        {
            case 0: if(maps) cu::format(pat, args, -1 - s.range(0, 3)); else { none.set(5); cu::format(pat, none); } break;
            case 1: if(maps) cu::format(pat, args, 9); else { args["zz"]; threw = true; } break;
            case 2: cu::format("{missing_one}", args); break;
            case 3: cu::format("{9}", args); break;
            case 4: cu::format("{", args); break;
            case 5: { Node o; o["a"]["b"] = 1; if(s.coin()) cu::format("{a}", o); else { o.reset(); o["a"]; cu::format("{a}", o); } break; }
            case 6: { Node o; o["a"] = "text"; if(s.coin()) cu::format("{a:d}", o); else cu::format("{a}", o, 0); break; }
        }
    }
    catch(const conduit::Error &) { threw = true; }
    CHECK(threw, "wrong use " << w << " of format is not reported");
}
PBT(format_fuzz, 10000, 200000)
{
    quiet();
    Node o; o["a"] = 5; o["b"] = 2.5; o["c"] = "hi"; Node l; l.append() = 7; l.append() = "x"; l.append() = 0.5;
    std::string p; int n = s.len(16);
    static const char *T[] = {"{", "}", ":", ".", "a", "b", "c", "0", "1", "2", "d", "f", "x", "s", "e", "g", ">", "<", "^", "+", "-", "#", " ", "!", "L", "%", "{}", "{a}", "{0}", "{:", "\\", "\xff", "\xc3\xa9"};
    int digits = 0;
    for(int i = 0; i < n; i++) { const char *t = T[s.draw(sizeof(T) / sizeof(T[0]) - 1)]; if(isdigit(t[0])) { if(++digits > 2) continue; } else digits = 0; p += t; }
    c.desc << q(p); c.nontrivial(p.find('{') != std::string::npos);
    for(int k = 0; k < 3; k++) try { if(k == 0) cu::format(p, o); else if(k == 1) cu::format(p, l); else cu::format(p, o, 0); } catch(const conduit::Error &) { c.label("error"); }
}

// ---------------------------------------------------------------- message handlers
static std::vector<std::string> log_;
static void on_i(const std::string &m, const std::string &f, int l) { log_.push_back("i|" + m + "|" + f + "|" + std::to_string(l)); }
static void on_w(const std::string &m, const std::string &f, int l) { log_.push_back("w|" + m + "|" + f + "|" + std::to_string(l)); }
static void on_e(const std::string &m, const std::string &f, int l) { log_.push_back("e|" + m + "|" + f + "|" + std::to_string(l)); }
static void ci(const char *m, const char *f, int l) { log_.push_back("i|" + std::string(m) + "|" + f + "|" + std::to_string(l)); }
static void cw(const char *m, const char *f, int l) { log_.push_back("w|" + std::string(m) + "|" + f + "|" + std::to_string(l)); }
static void ce(const char *m, const char *f, int l) { log_.push_back("e|" + std::string(m) + "|" + f + "|" + std::to_string(l)); }
PBT(handlers, 6000, 120000)
{
    struct R { ~R() { cu::set_info_handler(quiet_info); cu::set_warning_handler(cu::default_warning_handler); cu::set_error_handler(cu::default_error_handler); } } rs;
    int st[3] = {0, 0, 0};     // 0 default, 1 C++, 2 C
    cu::set_info_handler(on_i); st[0] = 1; cu::set_warning_handler(cu::default_warning_handler); cu::set_error_handler(cu::default_error_handler);
    int n = 1 + s.len(8);
    for(int k = 0; k < n; k++)
    {
        int w = (int)s.range(0, 2);
        if(s.coin())
        {
            int h = (int)s.range(w == 0 ? 1 : 0, 2); st[w] = h; c.desc << "set handler " << w << " to " << h << "\n";
            if(w == 0) { if(h == 1) cu::set_info_handler(on_i); else conduit_utils_set_info_handler(ci); }
            else if(w == 1) { if(h == 0) cu::set_warning_handler(cu::default_warning_handler); else if(h == 1) cu::set_warning_handler(on_w); else conduit_utils_set_warning_handler(cw); }
            else { if(h == 0) cu::set_error_handler(cu::default_error_handler); else if(h == 1) cu::set_error_handler(on_e); else conduit_utils_set_error_handler(ce); }
            if(h == 1) CHECK(w == 0 ? cu::info_handler() == on_i : w == 1 ? cu::warning_handler() == on_w : cu::error_handler() == on_e, "the active handler is not the one set");
            if(h == 0) CHECK(w == 1 ? cu::warning_handler() == cu::default_warning_handler : cu::error_handler() == cu::default_error_handler, "the active handler is not the default one");
            continue;
        }
        std::string m = gstr(s, "abc \n", 12), f = gstr(s, "abc/.", 8); for(auto &ch : m) if(!ch) ch = 'a'; for(auto &ch : f) if(!ch) ch = 'a'; int line = (int)s.range(0, 100000);
        c.desc << "message " << w << " " << q(m) << " " << q(f) << " " << line << "\n"; c.nontrivial();
        log_.clear(); bool threw = false; std::string what; bool macro = s.coin(); int mline = 0; std::string mf = f;
        try
        {
            if(macro) { mf = __FILE__; mline = __LINE__; if(w == 0) { CONDUIT_INFO(m << "+" << line); } else if(w == 1) { CONDUIT_WARN(m << "+" << line); } else { CONDUIT_ERROR(m << "+" << line); } }
            else if(w == 0) cu::handle_info(m, f, line); else if(w == 1) cu::handle_warning(m, f, line); else cu::handle_error(m, f, line);
        }
        catch(const conduit::Error &e) { threw = true; what = e.what(); conduit::Error e2(e); CHECK(std::string(e2.what()) == what && e.message() == what, "a copy of an error says something else"); }
        std::string text = macro ? m + "+" + std::to_string(line) : m; int ln = macro ? mline : line;
        CHECK(threw == (st[w] == 0), "a message of kind " << w << (threw ? " threw" : " did not throw") << " with handler " << st[w]);
        if(threw) CHECK(what.find(text) != std::string::npos && what.find(mf) != std::string::npos && what.find(std::to_string(ln)) != std::string::npos && log_.empty(), "the exception does not hold message, file and line: " << q(what));
        else { std::string want = std::string(1, "iwe"[w]) + "|" + text + "|" + mf + "|" + std::to_string(ln); CHECK(log_.size() == 1 && log_[0] == want, "the handler got " << (log_.empty() ? "nothing" : q(log_[0])) << " instead of " << q(want)); }
    }
}

// ---------------------------------------------------------------- files
PBT(files, 3000, 60000)
{
    std::string root = c.scratch + "/c27"; fs::remove_all(root); mkdir(root.c_str(), 0700);
    std::vector<std::string> pool; const char *nm[] = {"a", "b", ".dot", "c.txt", "sp ace", "..x"};
    int n = 1 + s.len(12); bool big = false;
    for(int k = 0; k < n; k++)
    {
        std::string d = root; while(s.chance(1, 3)) { d += std::string("/") + nm[s.draw(5)]; } std::string p = d + "/" + nm[s.draw(5)];
        std::string rel = p.substr(root.size()); fs::St fst = fs::st(p); bool ex = fst.ok, isd = fs::dir(fst), isf = fs::reg(fst);
        bool parent = fs::dir(fs::st(d));
        switch(s.weighted({4, 3, 2, 2, 2, 2, 1}))
        {
            case 0: { c.desc << "create_directory " << rel << "\n"; bool r = cu::create_directory(p); CHECK(r == (!ex && !fs::lnk(p) && parent), "create_directory " << rel << " returned " << r); CHECK(!r || fs::dir(fs::st(p)), "create_directory made nothing"); break; }
            case 1: { if(!parent || ex || fs::lnk(p)) break; std::string t = gstr(s, "abc", 30); c.desc << "write " << t.size() << " bytes to " << rel << "\n"; std::ofstream o(p, std::ios::binary); o << t; o.close(); big = true; break; }
            case 2: { if(!ex) { bool l = fs::lnk(p); CHECK(cu::remove_file(p) == l, "remove_file of nothing succeeded"); break; } if(!isf) break; c.desc << "remove_file " << rel << "\n"; CHECK(cu::remove_file(p), "remove_file failed"); CHECK(!fs::there(p), "remove_file left the file"); break; }
            case 3: { c.desc << "remove_path_if_exists " << rel << "\n"; bool empty = isd && fs::ls(p).empty(); bool lnk = fs::lnk(p); if(lnk) break; bool r = cu::remove_path_if_exists(p); CHECK(r == (isf || empty), "remove_path_if_exists " << rel << " returned " << r); CHECK(fs::st(p).ok == (ex && !r), "remove_path_if_exists " << rel << ": wrong state"); break; }
            case 4: { if(!isd) break; bool empty = fs::ls(p).empty(); if(fs::lnk(p)) break; c.desc << "remove_directory " << rel << "\n"; bool r = cu::remove_directory(p); CHECK(r == empty, "remove_directory " << rel << " returned " << r << (empty ? " for an empty directory" : " for one with contents")); CHECK(fs::st(p).ok == !empty, "remove_directory: wrong state"); break; }
            case 5: { if(!parent || ex || fs::lnk(p)) break; std::string tgt = s.coin() ? root : d + "/" + nm[s.draw(5)]; c.desc << "symlink " << rel << " -> " << tgt << "\n"; if(symlink(tgt.c_str(), p.c_str()) != 0) break; break; }
            case 6:
            {
                if(!parent || ex || fs::lnk(p)) break;
                if(s.coin()) { c.desc << "fifo " << rel << "\n"; if(mkfifo(p.c_str(), 0600) != 0) break; }
                else
                {
                    c.desc << "socket " << rel << "\n"; int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
                    if(fd >= 0 && p.size() < sizeof(a.sun_path)) { strcpy(a.sun_path, p.c_str()); if(bind(fd, (struct sockaddr *)&a, sizeof a) != 0) {} } if(fd >= 0) close(fd);
                }
                break;
            }
        }
        c.nontrivial(k > 1 && big);
        // what is there
        std::vector<std::string> all(1, root); all.push_back(p); all.push_back(root + "/none");
        fs::below(root, all);
        for(auto &x : all)
        {
            fs::St t = fs::st(x);
            CHECK(cu::is_file(x) == fs::reg(t), "is_file(" << x.substr(root.size()) << ") is " << cu::is_file(x));
            CHECK(cu::is_directory(x) == fs::dir(t), "is_directory(" << x.substr(root.size()) << ") is " << cu::is_directory(x));
            if(fs::reg(t)) CHECK(cu::file_size(x) == (index_t)t.n, "file_size is " << cu::file_size(x));
            bool slash = s.coin(), dots = s.chance(1, 3); std::vector<std::string> got(1, "old"); std::string arg = slash ? x + "/" : x;
            if(t.ok && !fs::dir(t) && !fs::reg(t)) continue;
            bool r = dots ? cu::list_directory_contents(arg, got, false) : cu::list_directory_contents(arg, got);
            CHECK(r == fs::dir(t), "list_directory_contents(" << x.substr(root.size()) << ") returned " << r);
            std::set<std::string> want; if(fs::dir(t)) { for(auto &b : fs::ls(x)) { if(dots || b[0] != '.') want.insert(x + "/" + b); } if(dots) { want.insert(x + "/."); want.insert(x + "/.."); } }
            CHECK(std::set<std::string>(got.begin(), got.end()) == want && got.size() == want.size(), "list_directory_contents(" << x.substr(root.size()) << ") gives " << got.size() << " entries instead of " << want.size());
        }
    }
    fs::remove_all(root);
}
PBT_MAIN()

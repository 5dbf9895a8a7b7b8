// C02: reading, converting and writing numeric data through any interface gives the
// C conversion of the stored values, whatever the layout of the data.
#include "pbt_main.hpp"
#include "model.hpp"
#include <type_traits>
using namespace model;
using namespace conduit;

template<class F> static bool throws(F f)
{ try { f(); } catch(conduit::Error &) { return true; } return false; }

// type -> dtype id
template<class T> int id_of()
{
    if(std::is_floating_point<T>::value) return sizeof(T) == 4 ? DataType::FLOAT32_ID : DataType::FLOAT64_ID;
    int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3;
    return (std::is_signed<T>::value ? DataType::INT8_ID : DataType::UINT8_ID) + k;
}
template<class T> uint64_t bits_of(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template<class T> T from_bits(uint64_t b) { T v; memcpy(&v, &b, sizeof(T)); return v; }

// is (T)s defined by the language?
template<class T, class S> bool defined_cast(S s)
{
    if(std::is_floating_point<S>::value && std::is_integral<T>::value)
    {
        long double x = (long double)s;
        if(!(x == x)) return false;
        long double lo = (long double)std::numeric_limits<T>::lowest(), hi = (long double)std::numeric_limits<T>::max();
        return x > lo - 1 && x < hi + 1;
    }
    return true;
}
template<class T> struct Conv { uint64_t bits; bool ok; Conv(uint64_t b) : bits(b), ok(true) {}
    template<class S> void operator()(S) { S s = from_bits<S>(bits); ok = defined_cast<T, S>(s); if(ok) v = (T)s; else v = 0; } T v; };
template<class T> bool expect(int id, uint64_t bits, T &out) { Conv<T> c(bits); by_type(id, (c)); out = c.v; return c.ok; }
template<class T> bool same(T a, T b) { return bits_of(a) == bits_of(b) || (a != a && b != b); }

// numeric leaf; small: values that keep sums exact
static M gen_num(Source &s, int id, int n, bool nonfinite)
{
    M m; m.id = id;
    for(int i = 0; i < n; i++) m.v.push_back(gen_val(s, id, nonfinite));
    return m;
}

// declared and defined for every conversion
#define SUFFIXES_A(X) \
    X(int8, int8) X(int16, int16) X(int32, int32) X(int64, int64) X(uint8, uint8) X(uint16, uint16) X(uint32, uint32) X(uint64, uint64) \
    X(float32, float32) X(float64, float64) \
    X(char, char) X(short, short) X(int, int) X(long, long) X(signed_long_long, long long) \
    X(unsigned_char, unsigned char) X(unsigned_short, unsigned short) X(unsigned_int, unsigned int) X(unsigned_long, unsigned long) X(unsigned_long_long, unsigned long long) \
    X(float, float) X(double, double)
// the library declares but does not define to_signed_{char,short,int,long}_array
#define SUFFIXES(X) SUFFIXES_A(X) \
    X(signed_char, signed char) X(signed_short, signed short) X(signed_int, signed int) X(signed_long, signed long)

// ---------------------------------------------------------------- reading
template<class T, class A> static void check_seq(const A &a, const M &m, const char *what)
{
    CHECK_EQ(a.number_of_elements(), (index_t)m.v.size(), what);
    for(size_t i = 0; i < m.v.size(); i++)
    {
        T e; if(!expect<T>(m.id, m.v[i], e)) continue;
        CHECK(same<T>(a[i], e), what << " element " << i << ": " << +a[i] << ", expected " << +e);
        CHECK(same<T>(a.element(i), e), what << " element() " << i);
    }
}

PBT(read_and_convert, 14000, 500000)
{
    quiet();
    int id = NUM_IDS[s.draw(9)]; int n = s.chance(1, 4) ? 1 : (int)s.range(0, 9);
    M m = gen_num(s, id, n, true);
    Arena ar; Node holder; Node &nd = holder["a/b"];
    bool ext = s.coin(); DataType dt;
    if(ext) { unsigned char *p = ar.leaf(s, m, dt, false, true); nd.set_external(dt, p); } else set_leaf(s, nd, m);
    const Node &cn = nd;
    if(c.want_desc) { m.print(c.desc); c.desc << " " << nd.dtype().to_json(); }
    c.nontrivial(n >= 1);
    c.label(std::string(ext && !nd.dtype().is_compact() ? "strided" : "compact"));
    // a result node that may already hold something else
    int pre_kind = (int)s.draw(3); M pre;
    if(pre_kind == 1) pre = gen_num(s, NUM_IDS[s.draw(9)], (int)s.range(0, 12), true);
    else if(pre_kind == 2) pre = M::String("x");
    else if(pre_kind == 3) { pre = M::Obj(); pre.child("q") = M::String("x"); }
    if(n == 0) { CHECK_NODE(nd, m, "empty leaf"); }
#define RD(suf, T) { \
    if(id_of<T>() == id) { \
        if(n) { T e; expect<T>(id, m.v[0], e); \
            CHECK(same<T>(nd.as_##suf(), e), "as_" #suf); CHECK(same<T>(*nd.as_##suf##_ptr(), e), "as_" #suf "_ptr"); CHECK(same<T>(*cn.as_##suf##_ptr(), e), "const as_" #suf "_ptr"); \
            CHECK((const void *)nd.as_##suf##_ptr() == (const void *)ele_addr(nd, 0), "as_" #suf "_ptr address"); } \
        check_seq<T>(nd.as_##suf##_array(), m, "as_" #suf "_array"); check_seq<T>(cn.as_##suf##_array(), m, "const as_" #suf "_array"); \
    } else { \
        CHECK(throws([&]() { (void)nd.as_##suf(); }), "as_" #suf " of another type must be an error"); \
        CHECK(throws([&]() { (void)nd.as_##suf##_ptr(); }) && throws([&]() { (void)cn.as_##suf##_ptr(); }), "as_" #suf "_ptr of another type must be an error"); \
        CHECK(throws([&]() { (void)nd.as_##suf##_array(); }) && throws([&]() { (void)cn.as_##suf##_array(); }), "as_" #suf "_array of another type must be an error"); \
    } \
    check_seq<T>(nd.as_##suf##_accessor(), m, "as_" #suf "_accessor"); \
    if(n) { T e; if(expect<T>(id, m.v[0], e)) CHECK(same<T>(nd.to_##suf(), e), "to_" #suf ": " << +nd.to_##suf() << ", expected " << +e); } \
    }
#define TOARR(suf, T) { M want; want.id = id_of<T>(); std::vector<char> known; \
    for(uint64_t b : m.v) { T e; known.push_back(expect<T>(id, b, e)); want.v.push_back(bits_of(e)); } \
    Node res; build_plain(res, pre); nd.to_##suf##_array(res); M got = read(res); \
    CHECK_EQ(got.id, want.id, "type of to_" #suf "_array"); CHECK_EQ(got.v.size(), want.v.size(), "length of to_" #suf "_array"); \
    for(size_t i = 0; i < got.v.size(); i++) if(known[i]) CHECK(same_val(got.id, got.v[i], want.v[i]), "to_" #suf "_array element " << i << ": " << valstr(got.id, got.v[i]) << ", expected " << valstr(want.id, want.v[i])); \
    Node res2; build_plain(res2, pre); nd.to_data_type(want.id, res2); M got2 = read(res2); \
    CHECK_EQ(got2.id, want.id, "type of to_data_type"); CHECK_EQ(got2.v.size(), want.v.size(), "length of to_data_type"); \
    for(size_t i = 0; i < got2.v.size(); i++) if(known[i]) CHECK(same_val(got2.id, got2.v[i], want.v[i]), "to_data_type element " << i); }
    SUFFIXES(RD)
    SUFFIXES_A(TOARR)
    // values without naming the type
    if(n)
    {
#define VAL(T) { T e; if(expect<T>(id, m.v[0], e)) { T a = nd.to_value(); T b = cn.to_value(); CHECK(same<T>(a, e) && same<T>(b, e), "to_value() as " #T); } \
        if(id_of<T>() == id) { expect<T>(id, m.v[0], e); T a = nd.value(); T b = cn.value(); CHECK(same<T>(a, e) && same<T>(b, e), "value() as " #T); T *p = nd.value(); CHECK((void *)p == (void *)ele_addr(nd, 0), "value() as pointer"); \
            const T *cp = cn.value(); CHECK((const void *)cp == (const void *)ele_addr(nd, 0), "const value() as pointer"); \
            DataArray<T> arr = nd.value(); check_seq<T>(arr, m, "value() as array"); } \
        else CHECK(throws([&]() { T a = nd.value(); (void)a; }), "value() of another type must be an error"); \
        DataAccessor<T> acc = nd.value(); check_seq<T>(acc, m, "value() as accessor"); DataAccessor<T> cacc = cn.value(); check_seq<T>(cacc, m, "const value() as accessor"); }
        VAL(signed char) VAL(short) VAL(int) VAL(long) VAL(unsigned char) VAL(unsigned short) VAL(unsigned int) VAL(unsigned long) VAL(float) VAL(double)
    }
    if(id == DataType::INT64_ID) { check_seq<index_t>(nd.as_index_t_array(), m, "as_index_t_array"); if(n) CHECK(*nd.as_index_t_ptr() == (index_t)m.v[0], "as_index_t_ptr"); }
    check_seq<index_t>(nd.as_index_t_accessor(), m, "as_index_t_accessor");
    if(n) { index_t e; if(expect<index_t>(id, m.v[0], e)) CHECK_EQ(nd.to_index_t(), e, "to_index_t"); }
    CHECK_NODE(nd, m, "reading must not change the data"); ar.check_gaps("reading");
}

// ---------------------------------------------------------------- writing
struct Writer
{
    Source &s; pbt::Ctx &c; Writer(Source &s_, pbt::Ctx &c_) : s(s_), c(c_) {}
    template<class T> struct Inner
    {
        Source &s; pbt::Ctx &c; int tid; M &m; DataArray<T> arr; DataAccessor<T> *acc; int op; int n; Arena &src_ar; std::vector<char> &known;
        template<class S> void put(size_t i, S v) { known[i] = defined_cast<T, S>(v); m.v[i] = mask(tid, bits_of<T>(known[i] ? (T)v : (T)0)); }
        template<class S> void operator()(S)
        {
            int sid = id_of<S>();
            std::vector<S> v; for(int i = 0; i < n + 3; i++) v.push_back(from_bits<S>(gen_val(s, sid, true)));
            int k = n ? (int)s.draw(n) : 0;      // how many (pointer / vector forms)
            if(c.want_desc) c.desc << " op" << op << " from " << idname(sid) << " k=" << k;
            switch(op)
            {
                case 0: for(int i = 0; i < n; i++) if(s.coin()) { arr.set(i, v[i]); put(i, v[i]); } break;
                case 1: { std::unique_ptr<S[]> p(new S[k ? k : 1]); for(int i = 0; i < k; i++) { p[i] = v[i]; put(i, v[i]); } arr.set(p.get(), k); break; }
                case 2: { std::vector<S> w(v.begin(), v.begin() + k); for(int i = 0; i < k; i++) put(i, v[i]); if(k) arr.set(w); break; }
                case 3: case 4: {
                    M sm; sm.id = sid; int len = n + (int)s.range(0, 2); for(int i = 0; i < len; i++) sm.v.push_back(bits_of(v[i]));
                    DataType dt; unsigned char *p = src_ar.leaf(s, sm, dt, false, true);
                    for(int i = 0; i < n; i++) put(i, v[i]);
                    if(op == 3) { DataArray<S> a(p, dt); arr.set(a); } else { DataAccessor<S> a(p, dt); arr.set(a); }
                    break; }
                case 5: arr.fill(v[0]); for(int i = 0; i < n; i++) put(i, v[0]); break;
                case 6: if(n >= 3) { arr.set({v[0], v[1], v[2]}); for(int i = 0; i < 3; i++) put(i, v[i]); } break;
                case 7: if(n >= 2) { arr = {v[0], v[1]}; for(int i = 0; i < 2; i++) put(i, v[i]); } break;
            }
        }
    };
    template<class T> void operator()(T)
    {
        int tid = id_of<T>(); int n = (int)s.range(0, 8);
        M m = gen_num(s, tid, n, true);
        Arena ar, src; Node nd; DataType dt; unsigned char *p = ar.leaf(s, m, dt, false, true);
        nd.set_external(dt, p);
        std::vector<char> known(n, 1);
        if(c.want_desc) { m.print(c.desc); c.desc << " " << dt.to_json(); }
        c.nontrivial(n >= 2 && !dt.is_compact());
        int nops = (int)s.range(1, 3);
        for(int k = 0; k < nops; k++)
        {
            int op = (int)s.draw(7); DataAccessor<T> *acc = NULL;
            Inner<T> in{s, c, tid, m, DataArray<T>(p, dt), acc, op, n, src, known};
            by_type(NUM_IDS[s.draw(9)], (in));
            M got = read(nd);
            for(int i = 0; i < n; i++) { if(!known[i]) m.v[i] = got.v[i]; known[i] = 1; }
            CHECK_NODE(nd, m, "after DataArray write op " << op);
            ar.check_gaps("DataArray write"); src.check_gaps("DataArray write (source)");
        }
    }
};
PBT(write_arrays, 30000, 800000) { quiet(); Writer w(s, c); by_type(NUM_IDS[s.draw(9)], (w)); }

template<class T> struct PutT { M &m; size_t i; T v; bool ok; template<class S> void operator()(S) { ok = defined_cast<S, T>(v); m.v[i] = mask(m.id, bits_of<S>(ok ? (S)v : (S)0)); } };
struct AccWriter
{
    Source &s; pbt::Ctx &c; int id; AccWriter(Source &s_, pbt::Ctx &c_, int i) : s(s_), c(c_), id(i) {}
    template<class T> void operator()(T)
    {
        // an accessor of T over storage of type id
        int n = (int)s.range(0, 8); M m = gen_num(s, id, n, true);
        Arena ar; Node nd; DataType dt; unsigned char *p = ar.leaf(s, m, dt, false, true); nd.set_external(dt, p);
        DataAccessor<T> a(p, dt), b; b = a;
        if(c.want_desc) { m.print(c.desc); c.desc << " accessed as " << idname(id_of<T>()); }
        c.nontrivial(n >= 2 && id_of<T>() != id);
        std::vector<char> known(n, 1);
        typedef PutT<T> Put;
        for(int i = 0; i < n; i++) if(s.coin())
        { T v = from_bits<T>(gen_val(s, id_of<T>(), true)); b.set(i, v); Put q{m, (size_t)i, v, true}; by_type(id, (q)); known[i] = q.ok; }
        if(s.chance(1, 4) && n)
        { T v = from_bits<T>(gen_val(s, id_of<T>(), true)); a.fill(v); for(int i = 0; i < n; i++) { Put q{m, (size_t)i, v, true}; by_type(id, (q)); known[i] = q.ok; } }
        M got = read(nd); for(int i = 0; i < n; i++) if(!known[i]) m.v[i] = got.v[i];
        CHECK_NODE(nd, m, "after accessor writes"); ar.check_gaps("accessor write");
        check_seq<T>(a, m, "accessor after writes");
    }
};
PBT(write_accessors, 30000, 500000) { quiet(); AccWriter w(s, c, NUM_IDS[s.draw(9)]); by_type(NUM_IDS[s.draw(9)], (w)); }

// ---------------------------------------------------------------- statistics
template<class T, class A> static void check_stats(const A &a, const std::vector<T> &v, const char *what, Source &s)
{
    T mn = v[0], mx = v[0]; long double sum = 0; uint64_t isum = 0;
    for(T x : v) { mn = std::min(mn, x); mx = std::max(mx, x); sum += (long double)x; isum += (uint64_t)(int64_t)x; }
    CHECK(same<T>(a.min(), mn), what << " min " << +a.min() << " expected " << +mn);
    CHECK(same<T>(a.max(), mx), what << " max " << +a.max() << " expected " << +mx);
    if(std::is_integral<T>::value) CHECK(a.sum() == (T)isum, what << " sum " << +a.sum() << " expected " << +(T)isum);
    else CHECK(std::fabs((double)(a.sum() - (T)sum)) <= 1e-5 * std::fabs((double)sum) + 1e-6, what << " sum " << +a.sum() << " expected " << (double)sum);
    double mean = (double)(sum / (long double)v.size());
    CHECK(std::fabs(a.mean() - mean) <= 1e-9 * (1 + std::fabs(mean)), what << " mean " << a.mean() << " expected " << mean);
    T probe = s.coin() ? v[s.draw(v.size() - 1)] : (T)3; index_t cnt = 0; for(T x : v) cnt += x == probe;
    CHECK_EQ(a.count(probe), cnt, what << " count");
}
struct Stats
{
    Source &s; pbt::Ctx &c; int id;
    template<class T> void operator()(T)
    {
        int n = (int)s.range(1, 10); M m; m.id = id;
        bool neg = is_signed(id) || is_float(id);
        for(int i = 0; i < n; i++)
        {
            int64_t k = s.chance(1, 6) ? s.range(0, 120) : s.range(0, 12); if(neg && s.coin()) k = -k;
            double x = is_float(id) && s.coin() ? k / 8.0 : (double)k;
            if(s.chance(1, 8) && !neg) k = 255;     // high bit set: signed / unsigned confusion shows
            if(id == DataType::FLOAT64_ID) m.v.push_back(f64_bits(x)); else if(id == DataType::FLOAT32_ID) m.v.push_back(f32_bits((float)x));
            else m.v.push_back(mask(id, (uint64_t)k));
        }
        Arena ar; Node nd; DataType dt; unsigned char *p = ar.leaf(s, m, dt, false, true); nd.set_external(dt, p);
        if(c.want_desc) m.print(c.desc);
        c.nontrivial(n >= 3);
        std::vector<T> v; for(uint64_t b : m.v) v.push_back(from_bits<T>(b));
        check_stats<T>(DataArray<T>(p, dt), v, "array", s);
        std::vector<double> vd; std::vector<int64> vi; for(T x : v) { vd.push_back((double)x); vi.push_back((int64)x); }
        check_stats<double>(nd.as_float64_accessor(), vd, "float64 accessor", s);
        check_stats<int64>(nd.as_int64_accessor(), vi, "int64 accessor", s);
    }
};
PBT(statistics, 40000, 500000) { quiet(); int id = NUM_IDS[s.draw(9)]; Stats st{s, c, id}; by_type(id, (st)); }

// ---------------------------------------------------------------- endianness
static void want_endian(const Node &n, index_t e, const M &m)
{
    if(m.obj() || m.list()) { for(size_t i = 0; i < m.kids.size(); i++) want_endian(n.child(i), e, m.kids[i].second); return; }
    if(!m.num()) return;
    index_t g = n.dtype().endianness(), md = Endianness::machine_default();
    CHECK((g == Endianness::DEFAULT_ID ? md : g) == (e == Endianness::DEFAULT_ID ? md : e), "recorded endianness after endian_swap at " << n.path());
}
PBT(endian_swap, 24000, 300000)
{
    quiet();
    { unsigned char x[8], y[10], z[8]; for(int i = 0; i < 8; i++) x[i] = z[i] = (unsigned char)s.draw(255); for(int k = 2; k <= 8; k *= 2) { memset(y, 0x77, sizeof y); uint64_t al[1]; memcpy(al, x, 8); if(k == 2) { Endianness::swap16(x, y + 1); Endianness::swap16(al); } else if(k == 4) { Endianness::swap32(x, y + 1); Endianness::swap32(al); } else { Endianness::swap64(x, y + 1); Endianness::swap64(al); }
        for(int i = 0; i < k; i++) { CHECK(y[1 + i] == z[k - 1 - i], "swap of " << k << " bytes into another place"); CHECK(((unsigned char *)al)[i] == z[k - 1 - i], "swap of " << k << " bytes in place"); } for(int i = k; i < 8; i++) CHECK(((unsigned char *)al)[i] == z[i], "swap in place wrote past its end"); CHECK(y[0] == 0x77 && y[1 + k] == 0x77 && memcmp(x, z, 8) == 0, "swap of " << k << " bytes wrote elsewhere"); } }
    for(index_t e : {(index_t)Endianness::BIG_ID, (index_t)Endianness::LITTLE_ID, (index_t)Endianness::DEFAULT_ID}) CHECK_EQ(Endianness::name_to_id(Endianness::id_to_name(e)), e, "names of byte orders");
    GenOpts g; M m = gen_tree(s, g); Arena ar; Node n; build(s, n, m, &ar, true);
    if(c.want_desc) m.print(c.desc);
    int k = (int)s.range(1, 3);
    for(int i = 0; i < k; i++)
    {
        index_t e = s.pick<index_t>({Endianness::BIG_ID, Endianness::LITTLE_ID, Endianness::DEFAULT_ID});
        switch(s.draw(1)) { case 0: n.endian_swap(e); break;
            default: if(e == Endianness::BIG_ID) n.endian_swap_to_big(); else if(e == Endianness::LITTLE_ID) n.endian_swap_to_little(); else n.endian_swap_to_machine_default(); }
        // read() decodes each leaf with the endianness its description records
        CHECK_NODE(n, m, "values after endian_swap"); want_endian(n, e, m); ar.check_gaps("endian_swap");
    }
    c.nontrivial(m.leaves() >= 1);
}

// ---------------------------------------------------------------- strings as numbers
PBT(strings_to_numbers, 20000, 300000)
{
    quiet();
    Node n; int64_t v = s.weighted({3, 1}) == 0 ? s.range(-128, 127) : (int64_t)(int32_t)s.bits();
    bool fl = s.chance(1, 3); double d = v / 4.0;
    std::ostringstream o; o.precision(17); if(fl) o << d; else o << v;
    n.set(o.str()); if(c.want_desc) c.desc << o.str();
    c.nontrivial(true);
    CHECK(n.to_float64() == (fl ? d : (double)v), "to_float64 of \"" << o.str() << "\"");
    CHECK(n.to_double() == (fl ? d : (double)v), "to_double"); CHECK(n.to_float32() == (float)(fl ? d : (double)v), "to_float32");
    if(!fl)
    {
        CHECK_EQ(n.to_int64(), v, "to_int64"); CHECK_EQ(n.to_int32(), (int32)v, "to_int32"); CHECK_EQ(n.to_long(), (long)v, "to_long"); CHECK_EQ(n.to_int(), (int)v, "to_int");
        if(v >= -32768 && v <= 32767) { CHECK_EQ(n.to_int16(), (int16)v, "to_int16"); CHECK_EQ(n.to_short(), (short)v, "to_short"); }
        if(v >= -128 && v <= 127) CHECK_EQ((int)n.to_int8(), (int)v, "to_int8");
        if(v >= 0) { CHECK_EQ(n.to_uint64(), (uint64)v, "to_uint64"); CHECK_EQ(n.to_uint32(), (uint32)v, "to_uint32"); CHECK_EQ(n.to_index_t(), (index_t)v, "to_index_t");
                     if(v < 256) CHECK_EQ((int)n.to_uint8(), (int)v, "to_uint8"); if(v < 65536) CHECK_EQ((int)n.to_uint16(), (int)v, "to_uint16"); }
    }
    Node res; CHECK(throws([&]() { n.to_int64_array(res); }) && throws([&]() { n.to_float64_array(res); }), "array conversion of a string must be an error");
    CHECK(throws([&]() { n.as_int64(); }), "as_int64 of a string must be an error");
    CHECK(n.as_string() == o.str() && std::string(n.as_char8_str()) == o.str(), "as_string");
}

// ---------------------------------------------------------------- printing arrays
static std::vector<std::string> tokens(std::string t)
{
    std::vector<std::string> r; std::string cur;
    for(char ch : t) { if(ch == '[' || ch == ']' || ch == ' ' || ch == '\n' || ch == '"') continue; if(ch == ',') { r.push_back(cur); cur.clear(); } else cur += ch; }
    if(!cur.empty()) r.push_back(cur);
    return r;
}
static bool tok_is(int id, uint64_t b, const std::string &t)
{
    if(is_float(id)) { double x = id == DataType::FLOAT64_ID ? bits_f64(b) : bits_f32(b), y = strtod(t.c_str(), NULL);
        if(x != x) return y != y; if(std::isinf(x)) return x == y;
        // conduit prints 15 significant digits
        if(std::isinf(y)) return std::fabs(x) > 1.797693134862e308 && (x > 0) == (y > 0);
        return std::fabs(x - y) <= std::fabs(x) * (id == DataType::FLOAT64_ID ? 1e-14 : 1e-6) + 5e-324; }
    return t == valstr(id, b);
}
struct Text
{
    Source &s; pbt::Ctx &c; int id;
    template<class T> void operator()(T)
    {
        int n = (int)s.range(0, 10); M m = gen_num(s, id, n, true);
        Arena ar; DataType dt; unsigned char *p = ar.leaf(s, m, dt, false, true);
        DataArray<T> a(p, dt); DataAccessor<T> b(p, dt);
        if(c.want_desc) m.print(c.desc);
        c.nontrivial(n >= 2);
        CHECK_EQ(a.to_string_default(), a.to_string(), "to_string_default"); CHECK_EQ(b.to_string_default(), b.to_string(), "to_string_default of an accessor"); CHECK_EQ(a.to_summary_string_default(), a.to_summary_string(), "to_summary_string_default"); CHECK_EQ(b.to_summary_string_default(), b.to_summary_string(), "to_summary_string_default of an accessor");
        { std::ostringstream o1, o2, o3; a.to_json(o1); a.to_json_stream(o2); b.to_json_stream(o3); CHECK_EQ(o1.str(), a.to_json(), "to_json to a stream"); CHECK_EQ(o2.str(), a.to_json(), "to_json_stream"); CHECK_EQ(o3.str(), b.to_json(), "to_json_stream of an accessor"); }
        { std::vector<uint8> flat((size_t)n * sizeof(T) + 1, 0xee); a.compact_elements_to(flat.data()); CHECK_EQ((int)flat.back(), 0xee, "compact_elements_to wrote past the end"); for(int i = 0; i < n; i++) CHECK(read_raw(&flat[i * sizeof(T)], sizeof(T), false) == mask(id, m.v[i]), "compact_elements_to element " << i); }
        std::string outs[6] = {a.to_json(), a.to_yaml(), a.to_string("json"), b.to_json(), b.to_yaml(), b.to_string("yaml")};
        for(int k = 0; k < 6; k++)
        {
            std::vector<std::string> t = tokens(outs[k]);
            CHECK_EQ((int)t.size(), n, "number of values printed in " << outs[k]);
            for(int i = 0; i < n; i++) CHECK(tok_is(id, m.v[i], t[i]), "value " << i << " of " << outs[k] << ", expected " << valstr(id, m.v[i]));
        }
        int th = (int)s.range(1, 12);
        std::string sums[2] = {a.to_summary_string(th), b.to_summary_string(th)};
        for(int k = 0; k < 2; k++)
        {
            std::vector<std::string> t = tokens(sums[k]);
            if(n <= th) { CHECK_EQ((int)t.size(), n, "summary of few values"); for(int i = 0; i < n; i++) CHECK(tok_is(id, m.v[i], t[i]), "summary value"); continue; }
            // at most th values, the first ones and the last ones, with an ellipsis between
            std::string all; for(auto &x : t) all += x + ","; size_t e = all.find("...");
            CHECK(e != std::string::npos, "summary of many values has an ellipsis: " << sums[k]);
            std::vector<std::string> head = tokens(all.substr(0, e)), tail = tokens(all.substr(e + 3));
            auto strip = [](std::vector<std::string> &v) { std::vector<std::string> r; for(auto &x : v) if(!x.empty()) r.push_back(x); v = r; }; strip(head); strip(tail);
            CHECK_EQ((int)(head.size() + tail.size()), th, "values shown by a summary: " << sums[k]);
            for(size_t i = 0; i < head.size(); i++) CHECK(tok_is(id, m.v[i], head[i]), "head of summary " << sums[k]);
            for(size_t i = 0; i < tail.size(); i++) CHECK(tok_is(id, m.v[n - tail.size() + i], tail[i]), "tail of summary " << sums[k]);
        }
    }
};
PBT(printing, 16000, 200000) { quiet(); int id = NUM_IDS[s.draw(9)]; Text t{s, c, id}; by_type(id, (t)); }
PBT_MAIN()

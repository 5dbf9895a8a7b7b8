// A small property-based testing engine.
//
// Every random decision of a case is drawn from a Source, which records it as one
// entry of a choice sequence.  A case is a pure function of its choice sequence:
// replaying the sequence replays the case, and shrinking works on the sequence
// (delete runs, zero runs, minimise single entries), so every generator shrinks.
// Choice 0 is always the simplest decision.
#ifndef PBT_CORE_HPP
#define PBT_CORE_HPP
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <cmath>

namespace pbt {

struct Fail : std::runtime_error { explicit Fail(const std::string &m) : std::runtime_error(m) {} };
struct Discard {};

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

class Source
{
public:
    std::vector<uint64_t> rec;   // what this run drew
    explicit Source(uint64_t seed) : replay(false), st(seed), pos(0) { init(); }
    explicit Source(const std::vector<uint64_t> &v) : replay(true), st(0), given(v), pos(0) { init(); }

    // uniform in [0,max]
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if(replay) { v = pos < given.size() ? given[pos] : 0; pos++; if(v > max) v = max; }
        else { st += 0x9e3779b97f4a7c15ull; uint64_t r = mix(st);
               v = (max == ~0ull) ? r : r % (max + 1); }
        if(rec.size() > 4000000) throw Discard();
        rec.push_back(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi)   // inclusive, lo is simplest
    { return lo >= hi ? lo : lo + (int64_t)draw((uint64_t)(hi - lo)); }
    bool chance(int num, int den) { return draw(den - 1) >= (uint64_t)(den - num); } // 0 -> false
    bool coin() { return draw(1) == 1; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // weighted: index i with probability w[i]/sum
    int weighted(std::initializer_list<int> w)
    {
        int sum = 0; for(int x : w) sum += x;
        int r = (int)draw(sum - 1), i = 0;
        for(int x : w) { if(r < x) return i; r -= x; i++; }
        return 0;
    }
    // a length in [0,max], scaled by the case's size
    int len(int max)
    {
        int m = 1 + (int)((long)max * (sz + 1) / 16);
        if(m > max) m = max;
        return (int)draw(m);
    }
    uint64_t bits() { return draw(~0ull); }
    int sz;                     // 0..15: size class of this case
private:
    bool replay; uint64_t st; std::vector<uint64_t> given; size_t pos;
    void init() { sz = 15; sz = (int)draw(15); }
};

struct Ctx
{
    bool want_desc = false;
    std::ostringstream desc;      // written only if want_desc
    bool nontriv = false;
    std::map<std::string, long> labels;
    std::string scratch;          // a directory of this worker's own
    void nontrivial(bool b = true) { if(b) nontriv = true; }
    void label(const std::string &s) { labels[s]++; }
};

typedef void (*CaseFn)(Source &, Ctx &);
struct Sub { std::string name; CaseFn fn; long quick; long thorough; };
inline std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(const char *n, CaseFn f, long q, long t) { subs().push_back(Sub{n, f, q, t}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(name, quick cases, thorough cases) { body using s, c }
#define PBT(name, q, t) \
    static void name(pbt::Source &s, pbt::Ctx &c); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, name, q, t); \
    static void name(pbt::Source &s, pbt::Ctx &c)

#define CHECK(cond, msg) \
    do { if(!(cond)) { std::ostringstream _o; _o << #cond << " is false: " << msg \
         << " [" << __FILE__ + (std::strrchr(__FILE__, '/') ? std::strrchr(__FILE__, '/') - __FILE__ + 1 : 0) \
         << ":" << __LINE__ << "]"; throw pbt::Fail(_o.str()); } } while(0)
#define CHECK_EQ(a, b, msg) \
    do { auto &&_a = (a); auto &&_b = (b); if(!(_a == _b)) { std::ostringstream _o; \
         _o << #a << " == " << #b << " is false (" << _a << " vs " << _b << "): " << msg \
         << " [" << __LINE__ << "]"; throw pbt::Fail(_o.str()); } } while(0)

// ------------------------------------------------------------------ shrinking
// fails(seq) runs a candidate and tells whether it still fails
inline std::vector<uint64_t> shrink(std::vector<uint64_t> cur,
                                    std::function<bool(const std::vector<uint64_t> &)> fails,
                                    std::function<bool()> out_of_budget)
{
    bool progress = true;
    while(progress && !out_of_budget())
    {
        progress = false;
        // delete runs
        for(size_t len = cur.size() / 2; len >= 1 && !out_of_budget(); len = (len > 8 ? len / 2 : len - 1))
        {
            for(size_t i = cur.size(); i-- > 0 && !out_of_budget();)
            {
                if(i + len > cur.size()) continue;
                if(len > 8 && i % (len / 2 ? len / 2 : 1)) continue;
                std::vector<uint64_t> c2(cur);
                c2.erase(c2.begin() + i, c2.begin() + i + len);
                if(fails(c2)) { cur = c2; progress = true; }
            }
        }
        // zero runs
        for(size_t len = 8; len >= 1 && !out_of_budget(); len /= 2)
            for(size_t i = 0; i + len <= cur.size() && !out_of_budget(); i += len)
            {
                bool nz = false;
                for(size_t k = i; k < i + len; k++) nz |= cur[k] != 0;
                if(!nz) continue;
                std::vector<uint64_t> c2(cur);
                for(size_t k = i; k < i + len; k++) c2[k] = 0;
                if(fails(c2)) { cur = c2; progress = true; }
            }
        // minimise values
        for(size_t i = 0; i < cur.size() && !out_of_budget(); i++)
        {
            uint64_t lo = 0, hi = cur[i];
            int it = 0;
            while(lo < hi && it++ < 12 && !out_of_budget())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c2(cur); c2[i] = mid;
                if(fails(c2)) { cur = c2; hi = mid; progress = true; }
                else lo = mid + 1;
            }
        }
        while(!cur.empty() && cur.back() == 0) cur.pop_back();
    }
    return cur;
}

inline std::string json_str(const std::string &s)
{
    std::string o = "\"";
    for(unsigned char ch : s)
    {
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch == '\t') o += "\\t";
        else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

} // namespace pbt
#endif

// C24: memory spaces. Nodes with registered allocators keep their data in memory that
// only the memcpy / memset handlers may touch (here: address ranges that are not
// mapped at all, with the bytes kept elsewhere), and behave like ordinary nodes.
#include "pbt_main.hpp"
#include "model.hpp"
#include <sys/mman.h>
using namespace model;

static const int NA = 3;
struct Space
{
    unsigned char *base = NULL; size_t cap = 0, used = 0; index_t id = -1;
    std::map<unsigned char *, std::vector<unsigned char>> live;
    long nalloc = 0, nfree = 0;
};
static Space sp[NA];
static std::string bad;           // first misuse seen by a callback
static long nmemcpy = 0, nmemset = 0;

template<int K> void *al(size_t n, size_t isz)
{
    Space &S = sp[K]; size_t nb = n * isz; S.nalloc++;
    unsigned char *p = S.base + S.used;
    S.used += ((nb + 63) / 64) * 64 + 64;
    if(S.used > S.cap) { fprintf(stderr, "harness: space exhausted\n"); abort(); }
    S.live[p] = std::vector<unsigned char>(nb, 0);
    return p;
}
template<int K> void fr(void *p)
{
    Space &S = sp[K]; S.nfree++;
    auto it = S.live.find((unsigned char *)p);
    if(it == S.live.end())
    {
        if(bad.empty()) { std::ostringstream o; o << "the free function of allocator " << S.id << " was given a pointer it does not own (or freed already)"; bad = o.str(); }
        return;
    }
    S.live.erase(it);
}
static int space_of(const void *p)
{
    for(int k = 0; k < NA; k++) if((const unsigned char *)p >= sp[k].base && (const unsigned char *)p < sp[k].base + sp[k].cap) return k;
    return -1;
}
// where the n bytes at p really are; NULL if they are not all in one live block
static unsigned char *real(const void *p, size_t n)
{
    int k = space_of(p);
    if(k < 0) return (unsigned char *)p;
    auto it = sp[k].live.upper_bound((unsigned char *)p);
    if(it == sp[k].live.begin()) return NULL;
    --it;
    size_t off = (size_t)((unsigned char *)p - it->first);
    if(off > it->second.size() || n > it->second.size() - off) return NULL;
    return it->second.data() + off;
}
static void cp(void *d, const void *s, size_t n)
{
    nmemcpy++;
    if(n == 0) return;
    unsigned char *dd = real(d, n), *ss = real(s, n);
    if(!dd || !ss) { if(bad.empty()) bad = "the memcpy handler was given a range outside of any live block"; return; }
    memmove(dd, ss, n);
}
static void ms(void *d, int v, size_t n)
{
    nmemset++;
    if(n == 0) return;
    unsigned char *dd = real(d, n);
    if(!dd) { if(bad.empty()) bad = "the memset handler was given a range outside of any live block"; return; }
    memset(dd, v, n);
}
static void setup()
{
    quiet();
    if(!sp[0].base)
    {
        for(int k = 0; k < NA; k++)
        {
            sp[k].cap = (size_t)1 << 30;
            void *p = mmap(NULL, sp[k].cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if(p == MAP_FAILED) { perror("mmap"); abort(); }
            sp[k].base = (unsigned char *)p;
        }
        std::vector<index_t> ids;
        ids.push_back(sp[0].id = conduit::utils::register_allocator(al<0>, fr<0>));
        ids.push_back(sp[1].id = conduit::utils::register_allocator(al<1>, fr<1>));
        ids.push_back(sp[2].id = conduit::utils::register_allocator(al<2>, fr<2>));
        for(int i = 0; i < NA; i++) { CHECK(ids[i] != 0, "a registered allocator got the id of the default one");
            for(int j = 0; j < i; j++) CHECK(ids[i] != ids[j], "two registered allocators have the same id"); }
    }
    conduit::utils::set_memcpy_handler(cp);
    conduit::utils::set_memset_handler(ms);
    bad.clear(); nmemcpy = nmemset = 0;
    for(int k = 0; k < NA; k++) { sp[k].live.clear(); sp[k].used = 0; sp[k].nalloc = sp[k].nfree = 0; }
}
struct Restore { ~Restore() { conduit::utils::set_memcpy_handler(conduit::utils::default_memcpy_handler); conduit::utils::set_memset_handler(conduit::utils::default_memset_handler); } };

static void check_bad(const char *when) { if(!bad.empty()) throw Fail(std::string(when) + ": " + bad); }

// every leaf's storage is where the allocators of the tree say
// pure: every node below the root has the root's allocator
static void walk(Node &n, index_t want, bool pure, const std::string &path)
{
    if(pure) CHECK(n.allocator() == want, "node '" << path << "' has allocator " << n.allocator() << ", its root has " << want);
    if(n.dtype().is_object() || n.dtype().is_list())
    {
        for(index_t i = 0; i < n.number_of_children(); i++) walk(n.child(i), want, pure, path + "/" + (n.dtype().is_object() ? n.child_names()[i] : std::to_string(i)));
        return;
    }
    if(n.dtype().is_empty() || n.dtype().number_of_elements() == 0) return;
    const void *p = n.element_ptr(0);
    int k = space_of(p);
    CHECK(k < 0 || real(p, (size_t)n.dtype().element_bytes()) != NULL, "leaf '" << path << "' has its data in memory that was freed");
    CHECK(k < 0 || real(n.element_ptr(n.dtype().number_of_elements() - 1), (size_t)n.dtype().element_bytes()) != NULL, "leaf '" << path << "' extends past its memory");
    index_t got = k < 0 ? 0 : sp[k].id;
    if(pure) CHECK(got == want, "leaf '" << path << "' of a node with allocator " << want << " has its data in memory of allocator " << got);
    else if(!n.is_data_external()) CHECK(got == n.allocator(), "leaf '" << path << "' has allocator " << n.allocator() << " but its data is in memory of allocator " << got);
}
// the tree, read by copying it to ordinary memory
static M fetch(const Node &n) { Node h; h.set(n); return read(h); }

static Node *some(Source &s, Node &r)      // an existing node of the tree
{
    Node *c = &r;
    while(c->number_of_children() > 0 && s.chance(3, 4)) c = &c->child((index_t)s.range(0, c->number_of_children() - 1));
    return c;
}
static bool owns(Node &n)                  // no leaf is a view of memory of another node
{
    if(n.number_of_children() == 0) return n.dtype().is_empty() || n.dtype().is_object() || n.dtype().is_list() || n.dtype().number_of_elements() == 0 || !n.is_data_external();
    for(index_t i = 0; i < n.number_of_children(); i++) if(!owns(n.child(i))) return false;
    return true;
}
static std::string gname(Source &s) { return s.pick({std::string("a"), std::string("b"), std::string("c"), std::string("d"), std::string("e")}); }

// one operation; the same choices applied to nodes in other memory give the same result
static std::string op(Source &s, std::vector<Node *> &n, bool dev, std::vector<index_t> &alloc, std::vector<char> &pure)
{
    std::ostringstream d; GenOpts g;
    size_t i = (size_t)s.range(0, (int64_t)n.size() - 1); size_t j = (size_t)s.range(0, (int64_t)n.size() - 1);
    Node &A = *n[i], &B = *n[j];
    auto leafm = [&]() { M m = gen_leaf(s, g); return m; };
    auto path = [&]() { std::string p = gname(s); while(s.chance(1, 3)) p += "/" + gname(s); return p; };
    switch(s.weighted({6, 3, 3, 4, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2}))
    {
        case 0: { std::string p = path(); M m = leafm(); d << "n" << i << "[" << p << "].set(" << m.str_() << ")"; set_leaf(s, A[p], m); break; }
        case 1: { M m = leafm(); Node *t = some(s, A); d << "set leaf of n" << i << " to " << m.str_(); set_leaf(s, *t, m); break; }
        case 2: { std::string p = path(); M m = gen_tree(s, g); Node h; build_plain(h, m); d << "n" << i << "[" << p << "].set(host tree " << m.str_() << ")"; A[p].set(h); break; }
        case 3: { if(i == j) break; std::string p = path(); d << "n" << i << "[" << p << "].set(n" << j << ")"; if(s.coin()) A[p].set(B); else A[p] = B; break; }
        case 4: { if(i == j) break; d << "n" << i << ".update(n" << j << ")"; A.update(B); break; }
        case 5: { if(i == j) break; d << "n" << i << ".update_compatible(n" << j << ")"; A.update_compatible(B); break; }
        case 6: { if(i == j) break; d << "n" << j << ".compact_to(n" << i << ")"; B.compact_to(A); break; }
        case 7: { if(i == j) break; d << "n" << i << ".swap(n" << j << ")"; A.swap(B); std::swap(alloc[i], alloc[j]); std::swap(pure[i], pure[j]); break; }
        case 8: { if(i == j) break; d << "n" << i << ".move(n" << j << ")"; A.move(B); std::swap(alloc[i], alloc[j]); std::swap(pure[i], pure[j]); pure[j] = 1; break; }
        case 9:
        {
            Node *t = some(s, A); if(t->number_of_children() == 0) break;
            index_t c = (index_t)s.range(0, t->number_of_children() - 1); d << "n" << i << ": remove a child";
            if(t->dtype().is_object() && s.coin()) t->remove_child(std::string(t->child_names()[c])); else t->remove(c);
            break;
        }
        case 10: { std::string p = path(); Node &t = A[p]; M m = leafm(); d << "n" << i << "[" << p << "].append() = " << m.str_(); set_leaf(s, t.append(), m); break; }
        case 11:
        {
            std::string p = path(); int id = NUM_IDS[s.draw(9)]; index_t cnt = s.range(0, 6), eb = ebytes(id);
            DataType dt(id, cnt, s.range(0, 2) * eb, eb * s.range(1, 3), eb, conduit::Endianness::DEFAULT_ID);
            d << "n" << i << "[" << p << "].set(" << dt.to_string() << ")"; A[p].set(dt); break;
        }
        case 12:
        {
            M m = gen_tree(s, g); if(!(m.obj() || m.list())) break; Node h; build_plain(h, m); conduit::Schema sch; h.schema().compact_to(sch);
            d << "n" << i << " set from the schema of " << m.str_();
            std::vector<conduit::uint8> buf; h.serialize(buf); buf.resize(buf.size() + 1);
            if(s.coin()) A.set(sch); else A.set(sch, buf.data());
            pure[i] = 1; break;
        }
        case 13: { d << "n" << i << ".reset()"; A.reset(); pure[i] = 1; break; }
        case 14:
        {
            index_t k = (index_t)s.range(0, NA); index_t id = k == 0 ? 0 : sp[k - 1].id;
            d << "n" << i << ".set_allocator(" << id << ")";
            // changing the allocator discards the contents
            if(id != alloc[i]) { if(!dev) A.reset(); pure[i] = 1; }
            if(dev) { if(id == 0 && s.coin()) A.reset_allocator(); else A.set_allocator(id); } else if(id == 0) s.coin();
            alloc[i] = id; break;
        }
        case 15: { std::string p = path(); Node *t = some(s, A); d << "n" << i << ": a child of a node set to a copy of the node"; if(t->number_of_children() > 40) break; Node c(*t); (*t)[p].set(c); break; }
        case 16:
        {
            if(i == j) break; Node *t = some(s, A), *u = some(s, B); if(t == &A || u == &B) break;
            if(!owns(*t) || !owns(*u)) break;      // views into a buffer of the root stay with the root
            d << "swap of a child of n" << i << " with a child of n" << j; t->swap(*u); pure[i] = pure[j] = 0; break;
        }
        case 17:
        {
            if(!A.dtype().is_object() || A.number_of_children() == 0) break;
            std::string from = A.child_names()[(size_t)s.range(0, A.number_of_children() - 1)], to = gname(s) + "r";
            if(A.has_child(to)) break;
            d << "n" << i << ".rename_child(" << from << ", " << to << ")"; A.rename_child(from, to); break;
        }
        case 18: { std::string p = path(); M m = leafm(); d << "n" << i << ".set_path(" << p << ", " << m.str_() << ")"; Node h; set_leaf(s, h, m); A.set_path(p, h); break; }
    }
    return d.str();
}

// any history gives the trees it gives in ordinary memory
PBT(history, 12000, 200000)
{
    setup(); Restore rs;
    {
        size_t nn = (size_t)s.range(1, 3);
        std::vector<std::unique_ptr<Node>> own; std::vector<Node *> D, H; std::vector<index_t> alloc; std::vector<char> pure(nn, 1);
        for(size_t i = 0; i < nn; i++)
        {
            own.emplace_back(new Node()); D.push_back(own.back().get()); own.emplace_back(new Node()); H.push_back(own.back().get());
            index_t k = (index_t)s.range(0, NA); alloc.push_back(k == 0 ? 0 : sp[k - 1].id);
            D[i]->set_allocator(alloc[i]);
            c.desc << "n" << i << " has allocator " << alloc[i] << "\n";
        }
        int steps = 1 + s.len(14);
        for(int st = 0; st < steps; st++)
        {
            Source t = s;
            std::vector<index_t> a2 = alloc; std::vector<char> p2 = pure;
            std::string what = op(s, D, true, alloc, pure);
            if(c.want_desc) c.desc << what << "\n";
            std::string what2 = op(t, H, false, a2, p2);
            CHECK(what == what2, "harness: the histories differ: " << what << " / " << what2);
            check_bad("after the operation");
            for(size_t i = 0; i < nn; i++)
            {
                CHECK(D[i]->allocator() == alloc[i], "n" << i << " has allocator " << D[i]->allocator() << " instead of " << alloc[i]);
                walk(*D[i], alloc[i], pure[i], "n" + std::to_string(i));
                M want = read(*H[i]); M got = fetch(*D[i]);
                std::string df = diff(got, want); CHECK(df.empty(), "n" << i << " differs from the same history in ordinary memory: " << df);
            }
            check_bad("after reading the trees");
        }
        c.nontrivial(sp[0].nalloc + sp[1].nalloc + sp[2].nalloc > 1);
        if(nn > 1 && s.coin()) { Node &x = *D[0]; Node ext; ext.set_external(x); Node h; h.set(ext); std::string df = diff(read(h), read(*H[0])); CHECK(df.empty(), "an external view of n0 differs: " << df);
            long f = sp[0].nfree + sp[1].nfree + sp[2].nfree; ext.reset(); CHECK(f == sp[0].nfree + sp[1].nfree + sp[2].nfree, "resetting an external view freed memory it does not own"); }
        if(s.coin())
        {
            std::vector<conduit::uint8> bd, bh; D[0]->serialize(bd); H[0]->serialize(bh);
            CHECK(bd == bh, "serialize gives other bytes (" << bd.size() << ") than in ordinary memory (" << bh.size() << ")");
        }
        { conduit::Node inf; D[0]->info(inf); }
        check_bad("after views and serialize");
    }
    check_bad("after the nodes are gone");
    for(int k = 0; k < NA; k++)
        CHECK(sp[k].live.empty(), sp[k].live.size() << " blocks of allocator " << sp[k].id << " were never freed (" << sp[k].nalloc << " allocated, " << sp[k].nfree << " freed)");
}

// conduit_allocate / conduit_free / strided copies between memory spaces
PBT(raw, 4000, 80000)
{
    setup(); Restore rs;
    int ks = (int)s.range(-1, NA - 1), kd = (int)s.range(-1, NA - 1);
    index_t is = ks < 0 ? 0 : sp[ks].id, id = kd < 0 ? 0 : sp[kd].id;
    size_t eb = (size_t)s.pick({1, 2, 3, 4, 8, 16}), n = (size_t)s.len(20), ss = eb + (size_t)s.range(0, 9) * (s.coin() ? 1 : 0), ds = eb + (size_t)s.range(0, 9) * (s.coin() ? 1 : 0);
    c.desc << "element bytes " << eb << " n " << n << " src stride " << ss << " dest stride " << ds << " from " << is << " to " << id;
    c.nontrivial(n > 1 && (ss != eb || ds != eb));
    size_t nbs = n ? ss * (n - 1) + eb : 0, nbd = n ? ds * (n - 1) + eb : 0;
    unsigned char *S = (unsigned char *)conduit::utils::conduit_allocate(nbs ? nbs : 1, 1, is), *D = (unsigned char *)conduit::utils::conduit_allocate(1, nbd ? nbd : 1, id);
    CHECK(space_of(S) == ks && space_of(D) == kd, "conduit_allocate used another allocator");
    unsigned char *rS = real(S, nbs), *rD = real(D, nbd);
    CHECK(rS && rD, "conduit_allocate gave too little memory");
    std::vector<unsigned char> want(nbd);
    for(size_t i = 0; i < nbs; i++) rS[i] = (unsigned char)s.draw(255);
    int fill = (int)s.draw(255); conduit::utils::conduit_memset(D, fill, nbd);
    for(auto &x : want) x = (unsigned char)fill;
    for(size_t i = 0; i < n; i++) memcpy(&want[i * ds], rS + i * ss, eb);
    std::vector<unsigned char> src(rS, rS + nbs);
    conduit::utils::conduit_memcpy_strided_elements(D, n, eb, ds, S, ss);
    check_bad("conduit_memcpy_strided_elements");
    CHECK(std::vector<unsigned char>(rD, rD + nbd) == want, "conduit_memcpy_strided_elements wrote other bytes");
    CHECK(std::vector<unsigned char>(rS, rS + nbs) == src, "conduit_memcpy_strided_elements changed the source");
    if(nbd <= nbs && nbd) { conduit::utils::conduit_memcpy(D, S, nbd); CHECK(memcmp(rD, rS, nbd) == 0, "conduit_memcpy copied other bytes"); }
    conduit::utils::conduit_free(S, is); conduit::utils::conduit_free(D, id); check_bad("conduit_free");
    for(int k = 0; k < NA; k++) CHECK(sp[k].live.empty(), "conduit_free did not free the block");
    CHECK(sp[0].nalloc + sp[1].nalloc + sp[2].nalloc == (ks >= 0) + (kd >= 0), "allocations by an allocator that was not asked");
}
PBT_MAIN()

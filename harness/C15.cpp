// C15: relay MPI moves trees between ranks unchanged, for every schedule the MPI standard allows.
#include "pbt_main.hpp"
#include "model.hpp"
#include <mpi.h>
#include "conduit_relay_mpi.hpp"
using namespace model; using namespace conduit; namespace rm = conduit::relay::mpi;
static const MPI_Comm W = MPI_COMM_WORLD;

// the nodes of one case, in all kinds of memory layouts
struct Pool
{
    Source &s; Arena A; std::list<Node> keep; std::vector<std::pair<Node *, M> > same; long odd = 0;
    explicit Pool(Source &s_) : s(s_) {}
    Node &empty() { keep.emplace_back(); return keep.back(); }
    Node &make(const M &m, bool may_be_child = true)
    {
        Node &n = empty(); int k = s.weighted({3, 3, 2, may_be_child ? 2 : 0});
        if(k == 0) build_plain(n, m);
        else if(k == 1) { build(s, n, m, &A); odd++; }
        else if(k == 2) { Node t; build(s, t, m); t.compact_to(n); }                    // one block
        else { Node t; t["first"] = (int8)s.range(1, 9); if(s.coin()) t["second"].set(std::vector<int16>(3, 7)); build_plain(t["me"], m); t["last"] = 2.5; t.compact_to(n); odd++; return n["me"]; }   // a part of a larger block
        return n;
    }
    const Node &input(const M &m) { Node &n = make(m); same.push_back(std::make_pair(&n, m)); return n; }
    // a tree of the same structure with other values
    M other(const M &m) { M r; r.id = m.id; if(m.leaf()) for(size_t i = 0; i < m.v.size(); i++) r.v.push_back(m.str() ? (uint64_t)'#' : mask(m.id, 0x55)); for(auto &k : m.kids) r.kids.push_back(std::make_pair(k.first, other(k.second))); return r; }
    void done(const char *what) { for(auto &x : same) CHECK_NODE(*x.first, x.second, what << ": what was sent"); A.check_gaps(what); }
};
static void no_dtype(M &m) { for(auto &k : m.kids) { if(k.first == "dtype") k.first = "dtypes"; no_dtype(k.second); } }
static M tree(Source &s, bool empties)
{
    GenOpts g; g.max_depth = 3; g.max_kids = 4; g.max_ele = 6; g.empties = empties; g.zero_len = empties; M m = gen_tree(s, g); no_dtype(m); return m;
}
static fm::Stats go(Source &s, pbt::Ctx &c, int n, std::function<void(int)> f)
{
    fm::Stats st; try { st = fm::run(n, [&s](uint64_t m) { return s.draw(m); }, f); } catch(fm::Failure &e) { throw pbt::Fail(e.what()); }
    c.nontrivial(n > 1 && st.calls > 1); return st;
}
static int ranks(Source &s) { return 1 + (int)s.range(1, 3) - (s.chance(1, 12) ? 1 : 0); }
static void values_like(Source &s, const M &a, M &b) { b = a; if(b.leaf()) for(auto &x : b.v) x = b.str() ? (uint64_t)('a' + s.range(0, 25)) : gen_val(s, b.id); for(auto &k : b.kids) { M t; values_like(s, k.second, t); k.second = t; } }

struct Msg { int src, dst, tag, how; M m; const Node *out; Node *in; };
static void describe(pbt::Ctx &c, int n, const std::vector<Msg> &ms) { if(c.want_desc) { c.desc << n << " ranks"; for(auto &m : ms) c.desc << "\n  " << m.src << " -> " << m.dst << " tag " << m.tag << " way " << m.how << " " << m.m.str_(); } }

// blocking sends and receives, in one order of all messages
PBT(blocking, 3000, 400000)
{
    int n = ranks(s); Pool P(s); std::vector<Msg> ms; int k = 1 + s.len(6);
    for(int i = 0; i < k && n > 1; i++)
    {
        Msg m; m.src = (int)s.range(0, n - 1); m.dst = (int)s.range(0, n - 2); if(m.dst >= m.src) m.dst++; m.tag = (int)s.pick<int>({0, 1, 7, 65535}); m.how = (int)s.range(0, 3); m.m = tree(s, false);
        m.out = &P.input(m.m); bool known = m.how < 2; m.in = known || s.coin() ? &P.make(P.other(m.m)) : &P.empty(); ms.push_back(m);
    }
    describe(c, n, ms);
    go(s, c, n, [&](int r) { for(auto &m : ms)
    {
        if(m.src == r) { int e = m.how < 2 ? rm::send(*m.out, m.dst, m.tag, W) : rm::send_using_schema(*m.out, m.dst, m.tag, W); CHECK_EQ(e, 0, "result of send"); }
        if(m.dst == r) { int e = m.how == 0 ? rm::recv(*m.in, m.src, m.tag, W) : m.how == 1 ? rm::recv(*m.in, m.src, MPI_ANY_TAG, W) : m.how == 2 ? rm::recv_using_schema(*m.in, m.src, m.tag, W) : rm::recv_using_schema(*m.in, m.src, MPI_ANY_TAG, W); CHECK_EQ(e, 0, "result of recv"); }
    } });
    for(auto &m : ms) CHECK_NODE(*m.in, m.m, "received from " << m.src << " by " << m.dst); P.done("blocking");
}
// wildcard receives get every message once
PBT(anyone, 2000, 200000)
{
    int n = ranks(s); if(n < 2) n = 2; Pool P(s); int root = (int)s.range(0, n - 1), how = (int)s.range(0, 2); std::vector<Msg> ms; M shape = tree(s, false);
    for(int r = 0; r < n; r++) if(r != root) { int k = s.len(2); for(int i = 0; i < k; i++) { Msg m; m.src = r; m.dst = root; m.tag = (int)s.range(0, 3); m.how = how; if(how == 1) m.m = tree(s, false); else values_like(s, shape, m.m); m.out = &P.input(m.m); ms.push_back(m); } }
    std::vector<Node *> in; for(size_t i = 0; i < ms.size(); i++) in.push_back(how == 1 ? &P.empty() : &P.make(P.other(shape))); describe(c, n, ms); size_t nm = ms.size(); bool rev = s.coin();
    go(s, c, n, [&](int r)
    {
        if(r != root) { for(auto &m : ms) if(m.src == r) { if(how == 1) rm::send_using_schema(*m.out, root, m.tag, W); else rm::send(*m.out, root, m.tag, W); } return; }
        if(how < 2) for(auto *x : in) { if(how == 1) rm::recv_using_schema(*x, W); else rm::recv(*x, W); }
        else { std::vector<rm::Request> q(nm); for(size_t i = 0; i < nm; i++) rm::irecv(*in[i], W, &q[i]); for(size_t i = 0; i < nm; i++) { MPI_Status st; rm::wait(&q[rev ? nm - 1 - i : i], &st); } }
    });
    std::vector<char> used(nm, 0); std::vector<int> last(n, -1);
    for(auto *x : in) { M g = read(*x); int hit = -1; for(size_t i = 0; i < nm && hit < 0; i++) if(!used[i] && model::diff(g, ms[i].m).empty()) hit = (int)i; CHECK(hit >= 0, "a received tree is none of those sent: " << g.str_()); used[hit] = 1; }
    P.done("anyone");
}
// non-blocking: everything is started, then waited for in some order
PBT(nonblocking, 3000, 400000)
{
    int n = ranks(s); Pool P(s); std::vector<Msg> ms; int k = 1 + s.len(7); std::vector<int> way(n), fin(n);
    for(int i = 0; i < k; i++)
    {
        Msg m; m.src = (int)s.range(0, n - 1); m.dst = (int)s.range(0, n - 1); m.tag = s.pick<int>({0, 1, 2, 65535, 65534}); m.how = 0; m.m = tree(s, false);
        // two messages between the same ranks with the same tag arrive in order, so they may differ
        m.out = &P.input(m.m); m.in = &P.make(P.other(m.m)); ms.push_back(m);
    }
    for(int r = 0; r < n; r++) { way[r] = (int)s.range(0, 2); fin[r] = (int)s.range(0, 3); }
    describe(c, n, ms); bool big = s.chance(1, 6); int bigtag = 65536 + (int)s.range(0, 100000); if(big) for(auto &m : ms) if(m.tag == 65535) m.tag = bigtag;
    go(s, c, n, [&](int r)
    {
        std::vector<rm::Request> q; size_t cnt = 0; for(auto &m : ms) cnt += (m.src == r) + (m.dst == r); q.resize(cnt); size_t j = 0;
        auto sends = [&](bool on) { for(auto &m : ms) if(on && m.src == r) CHECK_EQ(rm::isend(*m.out, m.dst, m.tag, W, &q[j++]), 0, "isend"); };
        auto recvs = [&](bool on) { for(auto &m : ms) if(on && m.dst == r) CHECK_EQ(rm::irecv(*m.in, m.src, m.tag, W, &q[j++]), 0, "irecv"); };
        if(way[r] == 0) { sends(true); recvs(true); } else if(way[r] == 1) { recvs(true); sends(true); } else for(auto &m : ms) { if(m.dst == r) rm::irecv(*m.in, m.src, m.tag, W, &q[j++]); if(m.src == r) rm::isend(*m.out, m.dst, m.tag, W, &q[j++]); }
        std::vector<MPI_Status> st(cnt + 1);
        if(fin[r] == 0) { if(cnt) CHECK_EQ(rm::wait_all((int)cnt, q.data(), st.data()), 0, "wait_all"); }
        else if(fin[r] == 1) for(size_t i = 0; i < cnt; i++) CHECK_EQ(rm::wait(&q[i], &st[i]), 0, "wait");
        else if(fin[r] == 2) for(size_t i = cnt; i-- > 0;) { if(i % 2) rm::wait_recv(&q[i], &st[i]); else rm::wait_send(&q[i], &st[i]); }
        else { size_t h = cnt / 2; if(h) rm::wait_all_send((int)h, q.data(), st.data()); if(cnt - h) rm::wait_all_recv((int)(cnt - h), q.data() + h, st.data() + h); }
    });
    for(auto &m : ms) CHECK_NODE(*m.in, m.m, "received from " << m.src << " by " << m.dst); P.done("nonblocking");
}
// communicate_using_schema, possibly several rounds with one object
PBT(communicate, 3000, 400000)
{
    int n = ranks(s), rounds = 1 + (int)s.range(0, 1); Pool P(s); std::vector<std::vector<Msg> > ms(rounds); std::vector<int> order(n); for(auto &x : order) x = (int)s.range(0, 2);
    for(auto &v : ms) { int k = s.len(7); for(int i = 0; i < k; i++) { Msg m; m.src = (int)s.range(0, n - 1); m.dst = (int)s.range(0, n - 1); m.tag = s.pick<int>({0, 1, 2, 3, 65535, 99999}); m.how = 0; m.m = tree(s, false); m.out = &P.input(m.m); m.in = s.coin() ? &P.empty() : &P.make(P.other(m.m)); v.push_back(m); } describe(c, n, v); }
    // clamped tags must not collide with others between the same ranks
    for(auto &v : ms) for(auto &m : v) if(m.tag == 99999) for(auto &x : v) if(x.tag == 65535) x.tag = 65534;
    go(s, c, n, [&](int r)
    {
        rm::communicate_using_schema C(W); for(auto &v : ms)
        {
            for(auto &m : v) { if(order[r] == 0 && m.src == r) C.add_isend(*m.out, m.dst, m.tag); if(m.dst == r && order[r] != 2) C.add_irecv(*m.in, m.src, m.tag); if(order[r] && m.src == r) C.add_isend(*m.out, m.dst, m.tag); if(m.dst == r && order[r] == 2) C.add_irecv(*m.in, m.src, m.tag); }
            C.execute();
        }
    });
    for(auto &v : ms) for(auto &m : v) CHECK_NODE(*m.in, m.m, "received from " << m.src << " by " << m.dst); P.done("communicate");
}
// ------------------------------------------------------------------ collectives, several in a row
struct Step { int kind, root, op; std::vector<M> in; std::vector<const Node *> send; std::vector<Node *> recv; std::vector<M> want; std::vector<char> is_in; };
static const int OPS[4] = {MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD};
static uint64_t reduce1(int op, int id, uint64_t a, uint64_t b)
{
    if(is_float(id)) { double x = id == DataType::FLOAT64_ID ? bits_f64(a) : bits_f32(a), y = id == DataType::FLOAT64_ID ? bits_f64(b) : bits_f32(b), z = op == 0 ? x + y : op == 1 ? std::min(x, y) : op == 2 ? std::max(x, y) : x * y; return id == DataType::FLOAT64_ID ? f64_bits(z) : f32_bits((float)z); }
    if(op == 0) return mask(id, a + b); if(op == 3) return mask(id, a * b);
    bool less = is_signed(id) ? bits_i(id, a) < bits_i(id, b) : a < b; return (op == 1) == less ? a : b;
}
static void run_step(const Step &t, int r)
{
    Node &sn = *const_cast<Node *>(t.send[r]); Node *rv = t.recv[r]; int e = 0;
    switch(t.kind)
    {
    case 0: e = rm::gather(sn, *rv, t.root, W); break;
    case 1: e = rm::all_gather(sn, *rv, W); break;
    case 2: e = rm::gather_using_schema(sn, *rv, t.root, W); break;
    case 3: e = rm::all_gather_using_schema(sn, *rv, W); break;
    case 4: e = rm::broadcast(*rv, t.root, W); break;
    case 5: e = rm::broadcast_using_schema(*rv, t.root, W); break;
    case 6: if(t.op == 0) e = rm::sum_reduce(sn, *rv, t.root, W); else if(t.op == 1) e = rm::min_reduce(sn, *rv, t.root, W); else if(t.op == 2) e = rm::max_reduce(sn, *rv, t.root, W); else e = rm::prod_reduce(sn, *rv, t.root, W); break;
    case 7: if(t.op == 0) e = rm::sum_all_reduce(sn, *rv, W); else if(t.op == 1) e = rm::min_all_reduce(sn, *rv, W); else if(t.op == 2) e = rm::max_all_reduce(sn, *rv, W); else e = rm::prod_all_reduce(sn, *rv, W); break;
    case 8: e = rm::reduce(sn, *rv, OPS[t.op], t.root, W); break;
    default: e = rm::all_reduce(sn, *rv, OPS[t.op], W); break;
    }
    CHECK_EQ(e, 0, "result");
}
static void collectives(Source &s, pbt::Ctx &c, std::vector<int> kinds)
{
    int n = ranks(s), k = 1 + (int)s.range(0, 2); Pool P(s); std::vector<Step> st; if(c.want_desc) c.desc << n << " ranks";
    for(int i = 0; i < k; i++)
    {
        Step t; t.kind = s.pick(kinds); t.root = (int)s.range(0, n - 1); t.op = (int)s.range(0, 3); bool red = t.kind >= 6, bc = t.kind == 4 || t.kind == 5, all = t.kind == 1 || t.kind == 3 || t.kind == 7 || t.kind == 9; M shape;
        if(red) { shape.id = NUM_IDS[s.draw(9)]; int e = s.chance(1, 3) ? 1 : s.len(6); shape.v.resize(e, 0); } else shape = tree(s, t.kind == 2 || t.kind == 3 || t.kind == 5);
        for(int r = 0; r < n; r++)
        {
            M m = shape; if(red) { for(auto &x : m.v) x = is_float(m.id) ? (m.id == DataType::FLOAT64_ID ? f64_bits((double)s.range(-9, 9)) : f32_bits((float)s.range(-9, 9))) : s.chance(1, 4) ? gen_val(s, m.id) : mask(m.id, (uint64_t)s.range(-9, 9)); }
            else if(t.kind == 0 || t.kind == 1 || bc) values_like(s, shape, m); else if(t.kind == 2 || t.kind == 3) m = tree(s, true);
            t.in.push_back(m); t.send.push_back(bc ? nullptr : &P.input(m));
        }
        M all_m; if(red) { all_m = t.in[0]; for(int r = 1; r < n; r++) for(size_t j = 0; j < all_m.v.size(); j++) all_m.v[j] = reduce1(t.op, all_m.id, all_m.v[j], t.in[r].v[j]); } else if(!bc) { all_m = M::List(); for(auto &m : t.in) all_m.kids.push_back(std::make_pair(std::string(), m)); } else all_m = t.in[t.root];
        for(int r = 0; r < n; r++)
        {
            M w = all_m;
            if(bc) { if(r == t.root) t.recv.push_back(&P.make(t.in[r])); else if(t.kind == 4) t.recv.push_back(&P.make(P.other(t.in[r]))); else { int q = s.weighted({2, 2, 2, 1}); M o = q == 1 ? P.other(all_m) : tree(s, false); if(q == 3 && all_m.num()) { o = P.other(all_m); o.v.resize(o.v.size() + 2, 3); } t.recv.push_back(q == 0 ? &P.empty() : &P.make(o, q == 1)); } }
            else if(red) { int q = (int)s.range(0, 3); M o = P.other(all_m); if(q == 2) { o = tree(s, false); if(o.id == all_m.id) { M t = M::List(); t.kids.push_back(std::make_pair(std::string(), o)); o = t; } } if(q == 3) { o.id = NUM_IDS[s.draw(9)]; } if(!(all || r == t.root)) w = q == 0 ? M() : o; t.recv.push_back(q == 0 ? &P.empty() : &P.make(o, q == 1)); }
            else { int q = (int)s.range(0, 2); M o = q == 1 ? P.other(all_m) : tree(s, false); if(!(all || r == t.root)) w = q == 0 ? M() : o; t.recv.push_back(q == 0 ? &P.empty() : &P.make(o, false)); }
            t.want.push_back(w);
        }
        if(c.want_desc) { c.desc << "\n kind " << t.kind << " root " << t.root << " op " << t.op; for(int r = 0; r < n; r++) c.desc << "\n   " << t.in[r].str_() << " into " << (read(*t.recv[r])).str_() << " " << t.recv[r]->schema().to_json(0, 0, "", "").substr(0, 300); }
        st.push_back(t);
    }
    go(s, c, n, [&](int r) { for(auto &t : st) run_step(t, r); });
    for(auto &t : st) for(int r = 0; r < n; r++) CHECK_NODE(*t.recv[r], t.want[r], "kind " << t.kind << ", result on rank " << r << " of " << n); P.done("collectives");
}
PBT(gathers, 3000, 400000) { collectives(s, c, {0, 1, 2, 3}); }
PBT(broadcasts, 3000, 400000) { collectives(s, c, {4, 5}); }
PBT(reductions, 3000, 400000) { collectives(s, c, {6, 7, 8, 9}); }
PBT_MAIN()

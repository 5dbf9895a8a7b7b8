// A stand-in for MPI, for the checks: the ranks are threads of one process of which exactly one
// runs at a time; at every MPI call the test case (its choice sequence) decides which runnable rank
// goes on, when a message in flight arrives, which of several matching messages a wildcard
// receive gets and whether a send is buffered or waits for its receive, so that every
// behaviour the MPI standard allows here can be generated, replayed and shrunk.
// A state in which no rank can go on is a deadlock and fails the case, and so do messages that are
// too long for their receive, mismatched collectives, messages never received, requests
// never completed and buffers touched while MPI owns them (by the address sanitizer).
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <map>

#define MPI_VERSION 3
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Errhandler; typedef int MPI_Fint; typedef long MPI_Aint; typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t fm_bytes; };
typedef void (MPI_Comm_errhandler_function)(MPI_Comm *, int *, ...);
typedef MPI_Comm_errhandler_function MPI_Comm_errhandler_fn;
enum { MPI_SUCCESS = 0, MPI_ERR_TAG = 4, MPI_ERR_OTHER = 15 };
enum { MPI_COMM_WORLD = 0x100, MPI_COMM_SELF = 0x101, MPI_COMM_NULL = 0x1ff };
enum { MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_PROC_NULL = -2, MPI_TAG_UB = 1, MPI_MAX_ERROR_STRING = 64, MPI_UNDEFINED = -32766 };
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR, MPI_BYTE, MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T,
       MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_LONG_INT, FM_USER_TYPE = 100 };
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_BAND, MPI_BOR, MPI_LAND, MPI_LOR, MPI_MAXLOC, MPI_MINLOC };
#define MPI_IN_PLACE ((void *)1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_ERRORS_RETURN 2
#define MPI_ERRORS_ARE_FATAL 1

namespace fm {

struct Failure : std::runtime_error { explicit Failure(const std::string &m) : std::runtime_error(m) {} };
struct Aborted {};

struct Req { int id, kind /*1 send 2 recv*/, rank; bool done; int src, tag; size_t bytes; MPI_Comm comm; void *buf; size_t cap; int want_src, want_tag; };
struct Msg { int src, dst, tag; MPI_Comm comm; std::vector<char> copy; const void *ptr; size_t bytes; bool eager; std::shared_ptr<Req> req; };
typedef std::shared_ptr<Msg> MsgP; typedef std::shared_ptr<Req> ReqP;
struct Coll { std::string sig; int arrived, left; bool done; std::vector<const void *> in; std::vector<void *> out; std::vector<size_t> n; std::vector<const int *> counts, displs; };

struct World
{
    int size = 0; std::function<uint64_t(uint64_t)> draw;    // draw(max): in [0, max]
    std::mutex mu; std::vector<std::unique_ptr<std::condition_variable> > cv;
    int running = -1; bool aborted = false; std::string why;
    std::vector<bool> finished; std::vector<std::function<bool()> > ready; std::vector<std::string> where;
    std::map<std::pair<int, int>, std::deque<MsgP> > flight; std::vector<std::deque<MsgP> > unexpected; std::vector<std::list<ReqP> > posted;
    std::map<int, ReqP> reqs; int next_req = 1; std::map<std::pair<MPI_Comm, long>, std::shared_ptr<Coll> > colls; std::vector<std::map<MPI_Comm, long> > coll_seq;
    long messages = 0, calls = 0, switches = 0; std::vector<int> eh; std::map<int, size_t> user_types; int next_type = FM_USER_TYPE; int tag_ub = 65535; int sched = 0;
};
inline World *&world() { static World *w = nullptr; return w; }
inline int &me() { static thread_local int r = 0; return r; }
inline void fail(const std::string &m) { throw Failure("MPI: rank " + std::to_string(me()) + ": " + m); }

inline bool match(const Req &r, const Msg &m) { return r.comm == m.comm && (r.want_src == MPI_ANY_SOURCE || r.want_src == m.src) && (r.want_tag == MPI_ANY_TAG || r.want_tag == m.tag); }
inline void complete(World &w, Req &r, Msg &m)
{
    if(m.bytes > r.cap) { w.aborted = true; w.why = "a message of " + std::to_string(m.bytes) + " bytes from rank " + std::to_string(m.src) + " (tag " + std::to_string(m.tag) + ") is received into " + std::to_string(r.cap) + " bytes"; return; }
    if(m.bytes) std::memcpy(r.buf, m.eager ? (const void *)m.copy.data() : m.ptr, m.bytes);
    r.done = true; r.src = m.src; r.tag = m.tag; r.bytes = m.bytes; if(m.req) m.req->done = true;
}
// the first message in flight on a channel arrives
inline void deliver(World &w, std::deque<MsgP> &q)
{
    MsgP m = q.front(); q.pop_front(); auto &p = w.posted[m->dst];
    for(auto it = p.begin(); it != p.end(); ++it) if(match(**it, *m)) { ReqP r = *it; p.erase(it); complete(w, *r, *m); return; }
    w.unexpected[m->dst].push_back(m);
}
inline void deliver_some(World &w, bool all)
{
    for(;;)
    {
        std::vector<std::deque<MsgP> *> q; for(auto &x : w.flight) if(!x.second.empty()) q.push_back(&x.second);
        if(q.empty()) return;
        if(!all && w.draw(2) != 0) return;     // 0: everything arrives at once
        deliver(w, *q[q.size() > 1 ? w.draw(q.size() - 1) : 0]);
        if(w.aborted) return;
    }
}
// called by the running rank with the lock held: hand over to some runnable rank
inline void hand_over(World &w, int self)
{
    std::vector<int> run; 
    for(;;)
    {
        run.clear(); if(w.aborted) break;
        if(self >= 0 && !w.finished[self] && w.ready[self]()) run.push_back(self);
        for(int r = 0; r < w.size; r++) if(r != self && !w.finished[r] && w.ready[r]()) run.push_back(r);
        if(!run.empty()) break;
        bool any = false; for(auto &x : w.flight) if(!x.second.empty()) any = true;
        if(!any) break;
        deliver_some(w, true);
    }
    if(run.empty() && !w.aborted)
    {
        bool live = false; for(int r = 0; r < w.size; r++) if(!w.finished[r]) live = true;
        if(!live) { w.running = -2; for(auto &c : w.cv) c->notify_all(); return; }
        w.aborted = true; w.why = "deadlock:"; for(int r = 0; r < w.size; r++) w.why += " rank " + std::to_string(r) + " " + (w.finished[r] ? std::string("is done") : "waits in " + w.where[r]) + ";";
    }
    if(w.aborted) { w.running = -1; for(auto &c : w.cv) c->notify_all(); return; }
    int nx = run[0]; if(run.size() > 1) { bool stay = run[0] == self && w.sched == 0; if(!stay) nx = run[w.draw(run.size() - 1)]; }
    if(nx != self) w.switches++;
    w.running = nx; if(nx != self) w.cv[nx]->notify_all();
}
inline void resume(World &w, std::unique_lock<std::mutex> &lk) { int r = me(); w.cv[r]->wait(lk, [&] { return w.aborted || w.running == r; }); if(w.aborted) throw Aborted(); }
// an MPI call: other ranks may run, then this one continues when pred holds
inline void block(std::unique_lock<std::mutex> &lk, const std::string &what, std::function<bool()> pred)
{
    World &w = *world(); int r = me(); w.calls++; w.where[r] = what; w.ready[r] = pred; deliver_some(w, false); hand_over(w, r); resume(w, lk); w.ready[r] = [] { return true; };
}
struct Call { std::unique_lock<std::mutex> lk; World &w; Call() : lk(world()->mu), w(*world()) { if(w.aborted) throw Aborted(); } };

inline size_t tsize(MPI_Datatype t)
{
    switch(t)
    {
    case MPI_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: return 1;
    case MPI_INT16_T: case MPI_UINT16_T: case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT32_T: case MPI_UINT32_T: case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_INT64_T: case MPI_UINT64_T: case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: return 8;
    case MPI_LONG_DOUBLE: case MPI_LONG_INT: return 16;
    }
    auto it = world()->user_types.find(t); if(it != world()->user_types.end()) return it->second;
    fail("bad datatype " + std::to_string(t)); return 0;
}
inline int crank(MPI_Comm c) { if(c == MPI_COMM_WORLD) return me(); if(c == MPI_COMM_SELF) return 0; fail("bad communicator"); return 0; }
inline int csize(MPI_Comm c) { return c == MPI_COMM_WORLD ? world()->size : 1; }
inline int grank(MPI_Comm c, int r) { return c == MPI_COMM_WORLD ? r : me(); }

inline ReqP new_req(World &w, int kind) { ReqP r(new Req()); r->id = w.next_req++; r->kind = kind; r->rank = me(); r->done = false; r->src = r->tag = -1; r->bytes = 0; w.reqs[r->id] = r; return r; }
inline int start_send(Call &c, const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, ReqP &rq)
{
    World &w = c.w; if(count < 0) fail("send of " + std::to_string(count) + " items"); size_t n = (size_t)count * tsize(t); if(dest < 0 || dest >= csize(comm)) fail("send to rank " + std::to_string(dest)); if(tag < 0 || tag > w.tag_ub) { if(w.eh[me()] == MPI_ERRORS_ARE_FATAL) fail("send with tag " + std::to_string(tag)); return MPI_ERR_TAG; }
    MsgP m(new Msg()); m->src = crank(comm); m->dst = grank(comm, dest); m->tag = tag; m->comm = comm; m->bytes = n; m->ptr = buf; m->eager = w.draw(1) == 0;
    rq = new_req(w, 1); rq->comm = comm;
    if(m->eager) { if(n) m->copy.assign((const char *)buf, (const char *)buf + n); rq->done = true; } else m->req = rq;
    w.messages++; w.flight[std::make_pair(me(), m->dst)].push_back(m); return MPI_SUCCESS;
}
// the message a receive or probe would get now, or none
inline MsgP candidate(World &w, const Req &r)
{
    std::vector<MsgP> c; std::vector<int> seen;
    for(auto &m : w.unexpected[me()]) if(match(r, *m)) { bool s = false; for(int x : seen) if(x == m->src) s = true; if(!s) { seen.push_back(m->src); c.push_back(m); } }
    return c.empty() ? MsgP() : c.size() == 1 ? c[0] : c[w.draw(c.size() - 1)];
}
inline ReqP start_recv(Call &c, void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm)
{
    World &w = c.w; if(count < 0) fail("receive of " + std::to_string(count) + " items"); if(src != MPI_ANY_SOURCE && (src < 0 || src >= csize(comm))) fail("receive from rank " + std::to_string(src)); if(tag != MPI_ANY_TAG && (tag < 0 || tag > w.tag_ub)) fail("receive with tag " + std::to_string(tag));
    ReqP r = new_req(w, 2); r->comm = comm; r->buf = buf; r->cap = (size_t)count * tsize(t); r->want_src = src; r->want_tag = tag; MsgP m = candidate(w, *r);
    if(m) { auto &u = w.unexpected[me()]; for(auto it = u.begin(); it != u.end(); ++it) if(*it == m) { u.erase(it); break; } complete(w, *r, *m); if(w.aborted) throw Aborted(); } else w.posted[me()].push_back(r);
    return r;
}
inline void finish(World &w, const ReqP &r, MPI_Status *st) { if(st) { st->MPI_SOURCE = r->src; st->MPI_TAG = r->tag; st->MPI_ERROR = MPI_SUCCESS; st->fm_bytes = r->bytes; } w.reqs.erase(r->id); }
inline std::string say(const char *f, int peer, int tag) { std::ostringstream o; o << f << "(" << peer << ", tag " << tag << ")"; return o.str(); }

// ---- collectives: all ranks meet; the last one does the work
inline void collective(const std::string &name, const std::string &sig, MPI_Comm comm, const void *in, void *out, size_t n, const int *counts, const int *displs, std::function<void(Coll &)> work)
{
    Call c; World &w = c.w; int r = crank(comm), sz = csize(comm); long q = w.coll_seq[me()][comm]++; 
    if(comm == MPI_COMM_SELF) { Coll k; k.in.assign(1, in); k.out.assign(1, out); k.n.assign(1, n); k.counts.assign(1, counts); k.displs.assign(1, displs); work(k); return; }
    auto &k = w.colls[std::make_pair(comm, q)];
    if(!k) { k.reset(new Coll()); k->arrived = 0; k->left = sz; k->done = false; k->sig = name + " " + sig; k->in.resize(sz); k->out.resize(sz); k->n.resize(sz); k->counts.resize(sz); k->displs.resize(sz); }
    if(k->sig != name + " " + sig) fail("collective calls do not match: " + k->sig + " and " + name + " " + sig);
    std::shared_ptr<Coll> kk = k; kk->in[r] = in; kk->out[r] = out; kk->n[r] = n; kk->counts[r] = counts; kk->displs[r] = displs;
    if(++kk->arrived == sz) { work(*kk); kk->done = true; }
    block(c.lk, name, [kk] { return kk->done; });
    if(--kk->left == 0) w.colls.erase(std::make_pair(comm, q));
}
template<class T> inline void red1(MPI_Op op, const T *a, T *b, size_t n) { for(size_t i = 0; i < n; i++) switch(op) { case MPI_SUM: b[i] = (T)(b[i] + a[i]); break; case MPI_PROD: b[i] = (T)(b[i] * a[i]); break; case MPI_MAX: if(a[i] > b[i]) b[i] = a[i]; break; case MPI_MIN: if(a[i] < b[i]) b[i] = a[i]; break; case MPI_LAND: b[i] = (T)(b[i] && a[i]); break; case MPI_LOR: b[i] = (T)(b[i] || a[i]); break; default: fail("bad reduction"); } }
template<class T> inline void redu(MPI_Op op, const T *a, T *b, size_t n) { typedef typename std::make_unsigned<T>::type U; if(op == MPI_SUM) { for(size_t i = 0; i < n; i++) b[i] = (T)((U)b[i] + (U)a[i]); } else if(op == MPI_PROD) { for(size_t i = 0; i < n; i++) b[i] = (T)((uint64_t)(U)b[i] * (uint64_t)(U)a[i]); } else if(op == MPI_BAND) { for(size_t i = 0; i < n; i++) b[i] = (T)(b[i] & a[i]); } else if(op == MPI_BOR) { for(size_t i = 0; i < n; i++) b[i] = (T)(b[i] | a[i]); } else red1(op, a, b, n); }
struct LongInt { long v; int i; };
inline void reduce_into(MPI_Op op, MPI_Datatype t, const void *a, void *b, size_t n)
{
    switch(t)
    {
    case MPI_CHAR: case MPI_INT8_T: case MPI_SIGNED_CHAR: return redu(op, (const int8_t *)a, (int8_t *)b, n);
    case MPI_UINT8_T: case MPI_UNSIGNED_CHAR: return redu(op, (const uint8_t *)a, (uint8_t *)b, n);
    case MPI_BYTE: if(op != MPI_BAND && op != MPI_BOR) fail("bad reduction of MPI_BYTE"); return redu(op, (const uint8_t *)a, (uint8_t *)b, n);
    case MPI_INT16_T: case MPI_SHORT: return redu(op, (const int16_t *)a, (int16_t *)b, n);
    case MPI_UINT16_T: case MPI_UNSIGNED_SHORT: return redu(op, (const uint16_t *)a, (uint16_t *)b, n);
    case MPI_INT32_T: case MPI_INT: return redu(op, (const int32_t *)a, (int32_t *)b, n);
    case MPI_UINT32_T: case MPI_UNSIGNED: return redu(op, (const uint32_t *)a, (uint32_t *)b, n);
    case MPI_INT64_T: case MPI_LONG: case MPI_LONG_LONG: return redu(op, (const int64_t *)a, (int64_t *)b, n);
    case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: return redu(op, (const uint64_t *)a, (uint64_t *)b, n);
    case MPI_FLOAT: return red1(op, (const float *)a, (float *)b, n);
    case MPI_DOUBLE: return red1(op, (const double *)a, (double *)b, n);
    case MPI_LONG_INT: { const LongInt *x = (const LongInt *)a; LongInt *y = (LongInt *)b; for(size_t i = 0; i < n; i++) { if(op == MPI_MAXLOC) { if(x[i].v > y[i].v) y[i] = x[i]; else if(x[i].v == y[i].v && x[i].i < y[i].i) y[i].i = x[i].i; } else if(op == MPI_MINLOC) { if(x[i].v < y[i].v) y[i] = x[i]; else if(x[i].v == y[i].v && x[i].i < y[i].i) y[i].i = x[i].i; } else fail("bad reduction of MPI_LONG_INT"); } return; }
    }
    fail("bad reduction type " + std::to_string(t));
}
// unaligned or uninitialised data is copied byte by byte
inline std::vector<char> reduce_all(Coll &k, MPI_Op op, MPI_Datatype t, size_t bytes, size_t n)
{
    std::vector<char> acc(bytes), tmp(bytes);
    for(size_t r = 0; r < k.in.size(); r++) { const void *src = k.in[r] == MPI_IN_PLACE ? k.out[r] : k.in[r]; if(!bytes) continue; if(r == 0) std::memcpy(acc.data(), src, bytes); else { std::memcpy(tmp.data(), src, bytes); reduce_into(op, t, tmp.data(), acc.data(), n); } }
    return acc;
}
inline std::string num(const char *k, long v) { return std::string(k) + "=" + std::to_string(v) + " "; }

// ---- run f(rank) on n ranks
struct Stats { long messages, calls, switches; };
inline Stats run(int n, std::function<uint64_t(uint64_t)> draw, std::function<void(int)> f)
{
    World w; w.size = n; w.draw = draw; w.finished.assign(n, false); w.ready.assign(n, [] { return true; }); w.where.resize(n); w.unexpected.resize(n); w.posted.resize(n); w.coll_seq.resize(n); w.eh.assign(n, MPI_ERRORS_ARE_FATAL);
    for(int i = 0; i < n; i++) w.cv.emplace_back(new std::condition_variable()); world() = &w; w.sched = (int)draw(1);
    std::string err; std::exception_ptr first; std::vector<std::thread> th;
    w.running = n > 1 ? (int)draw(n - 1) : 0;
    for(int i = 0; i < n; i++) th.emplace_back([&w, &f, &first, i] {
        me() = i; std::exception_ptr ex;
        try { { std::unique_lock<std::mutex> lk(w.mu); resume(w, lk); } f(i); }
        catch(Aborted &) {}
        catch(...) { ex = std::current_exception(); }
        std::unique_lock<std::mutex> lk(w.mu); w.finished[i] = true;
        if(ex && !first) { first = ex; if(!w.aborted) { w.aborted = true; w.why = "failed"; } }
        hand_over(w, i); });
    for(auto &t : th) t.join();
    Stats s{w.messages, w.calls, w.switches}; size_t left = 0, inflight = 0; for(auto &u : w.unexpected) left += u.size(); for(auto &x : w.flight) inflight += x.second.size(); size_t open = w.reqs.size(); size_t eh = 0; for(int h : w.eh) if(h != MPI_ERRORS_ARE_FATAL) eh++; bool ab = w.aborted; std::string why = w.why; world() = nullptr;
    if(first) std::rethrow_exception(first);
    if(ab) throw Failure("MPI: " + why);
    if(left + inflight) throw Failure("MPI: " + std::to_string(left + inflight) + " messages were never received");
    if(open) throw Failure("MPI: " + std::to_string(open) + " requests were never completed");
    if(eh) throw Failure("MPI: " + std::to_string(eh) + " ranks are left with another error handler");
    return s;
}
} // namespace fm

typedef int MPI_Request; enum { MPI_REQUEST_NULL = 0 };
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline double MPI_Wtime() { static double t = 0; return t += 1e-6; }
inline MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return c; }
inline MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { *r = fm::crank(c); return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *n) { fm::crank(c); *n = fm::csize(c); return 0; }
inline int MPI_Error_string(int, char *s, int *n) { std::strcpy(s, "MPI error"); if(n) *n = 9; return 0; }
inline int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *h) { *h = fm::world()->eh[fm::me()]; return 0; }
inline int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler h) { fm::world()->eh[fm::me()] = h; return 0; }
inline int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *h) { *h = MPI_ERRORS_RETURN; return 0; }
inline int MPI_Errhandler_free(MPI_Errhandler *) { return 0; }
inline int MPI_Comm_get_attr(MPI_Comm, int key, void *v, int *flag) { *flag = 0; if(key == MPI_TAG_UB) { static int ub; ub = fm::world()->tag_ub; *(int **)v = &ub; *flag = 1; } return 0; }
inline int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *off, const MPI_Datatype *t, MPI_Datatype *nt) { fm::Call c; size_t e = 0, al = 1; for(int i = 0; i < n; i++) { size_t s = fm::tsize(t[i]); e = std::max(e, (size_t)off[i] + s * (size_t)len[i]); al = std::max(al, s); } *nt = c.w.next_type++; c.w.user_types[*nt] = (e + al - 1) / al * al; return 0; }
inline int MPI_Type_commit(MPI_Datatype *) { return 0; }
inline int MPI_Type_free(MPI_Datatype *t) { if(std::uncaught_exceptions() > 0) return 0; /* called while a failure unwinds the stack */ fm::Call c; if(!c.w.user_types.erase(*t)) fm::fail("bad datatype freed"); *t = MPI_DATATYPE_NULL; return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *n) { fm::Call c; *n = (int)fm::tsize(t); return 0; }
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t k = fm::tsize(t); *n = s->fm_bytes % k ? MPI_UNDEFINED : (int)(s->fm_bytes / k); return 0; }

inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm comm, MPI_Request *rq) { fm::Call c; fm::ReqP r; int e = fm::start_send(c, b, n, t, d, tag, comm, r); if(e) return e; *rq = r->id; fm::block(c.lk, "MPI_Isend", [] { return true; }); return 0; }
inline int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Request *rq) { fm::Call c; *rq = fm::start_recv(c, b, n, t, s, tag, comm)->id; fm::block(c.lk, "MPI_Irecv", [] { return true; }); return 0; }
inline int MPI_Wait(MPI_Request *rq, MPI_Status *st) { fm::Call c; if(*rq == MPI_REQUEST_NULL) return 0; auto it = c.w.reqs.find(*rq); if(it == c.w.reqs.end() || it->second->rank != fm::me()) fm::fail("MPI_Wait on a bad request"); fm::ReqP r = it->second; fm::block(c.lk, r->kind == 1 ? "MPI_Wait (send)" : "MPI_Wait (receive)", [r] { return r->done; }); fm::finish(c.w, r, st); *rq = MPI_REQUEST_NULL; return 0; }
inline int MPI_Waitall(int n, MPI_Request *rq, MPI_Status *st)
{
    fm::Call c; std::vector<fm::ReqP> rs((size_t)n); for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL) { auto it = c.w.reqs.find(rq[i]); if(it == c.w.reqs.end() || it->second->rank != fm::me()) fm::fail("MPI_Waitall on a bad request"); rs[i] = it->second; }
    fm::block(c.lk, "MPI_Waitall", [rs] { for(auto &r : rs) if(r && !r->done) return false; return true; });
    for(int i = 0; i < n; i++) if(rs[i]) { fm::finish(c.w, rs[i], st ? st + i : nullptr); rq[i] = MPI_REQUEST_NULL; } return 0;
}
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm comm) { fm::Call c; fm::ReqP r; int e = fm::start_send(c, b, n, t, d, tag, comm, r); if(e) return e; fm::block(c.lk, fm::say("MPI_Send", d, tag), [r] { return r->done; }); fm::finish(c.w, r, nullptr); return 0; }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Status *st) { fm::Call c; fm::ReqP r = fm::start_recv(c, b, n, t, s, tag, comm); fm::block(c.lk, fm::say("MPI_Recv", s, tag), [r] { return r->done; }); fm::finish(c.w, r, st); return 0; }
inline int MPI_Probe(int s, int tag, MPI_Comm comm, MPI_Status *st)
{
    fm::Call c; fm::World *w = &c.w; int r = fm::me(); fm::Req q; q.comm = comm; q.want_src = s; q.want_tag = tag;
    fm::block(c.lk, fm::say("MPI_Probe", s, tag), [w, r, q] { for(auto &m : w->unexpected[r]) if(fm::match(q, *m)) return true; return false; });
    fm::MsgP m = fm::candidate(*w, q); if(st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->fm_bytes = m->bytes; } return 0;
}
inline int MPI_Barrier(MPI_Comm comm) { fm::collective("MPI_Barrier", "", comm, nullptr, nullptr, 0, nullptr, nullptr, [](fm::Coll &) {}); return 0; }
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm comm)
{
    size_t bytes = (size_t)n * fm::tsize(t); if(root < 0 || root >= fm::csize(comm)) fm::fail("bad root");
    fm::collective("MPI_Bcast", fm::num("bytes", (long)bytes) + fm::num("root", root), comm, nullptr, b, bytes, nullptr, nullptr, [=](fm::Coll &k) { for(size_t r = 0; r < k.out.size(); r++) if((int)r != root && bytes) std::memmove(k.out[r], k.out[root], bytes); }); return 0;
}
inline int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
    size_t bytes = (size_t)n * fm::tsize(t);
    fm::collective("MPI_Allreduce", fm::num("count", n) + fm::num("type", t) + fm::num("op", op), comm, in, out, bytes, nullptr, nullptr, [=](fm::Coll &k) { std::vector<char> a = fm::reduce_all(k, op, t, bytes, (size_t)n); for(auto *o : k.out) if(bytes) std::memcpy(o, a.data(), bytes); }); return 0;
}
inline int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm)
{
    size_t bytes = (size_t)n * fm::tsize(t); if(root < 0 || root >= fm::csize(comm)) fm::fail("bad root");
    fm::collective("MPI_Reduce", fm::num("count", n) + fm::num("type", t) + fm::num("op", op) + fm::num("root", root), comm, in, out, bytes, nullptr, nullptr, [=](fm::Coll &k) { std::vector<char> a = fm::reduce_all(k, op, t, bytes, (size_t)n); if(bytes) std::memcpy(k.out[root], a.data(), bytes); }); return 0;
}
namespace fm {
inline int gatherv(const char *name, const void *in, int sn, MPI_Datatype st, void *out, const int *counts, const int *displs, int rn, MPI_Datatype rt, int root, MPI_Comm comm)
{
    // in == MPI_IN_PLACE: the own part is already in place
    size_t sb = in == MPI_IN_PLACE ? 0 : (size_t)sn * tsize(st), re = 0; if(root < 0 || root == crank(comm)) re = tsize(rt); if(root >= csize(comm)) fail("bad root");
    struct P { size_t re; int rn; }; static_assert(sizeof(P) >= 8, ""); int sz = csize(comm), self = crank(comm); std::vector<int> cn, dp; if(root < 0 || self == root) for(int i = 0; i < sz; i++) { cn.push_back(counts ? counts[i] : rn); dp.push_back(displs ? displs[i] : rn * i); }
    // every rank passes its own receive description through its slot
    struct Slot { std::vector<int> cn, dp; size_t re; void *out; }; auto slot = std::make_shared<Slot>(); slot->cn = cn; slot->dp = dp; slot->re = re; slot->out = out;
    collective(name, num("root", root), comm, in, slot.get(), sb, nullptr, nullptr, [=](Coll &k) {
        for(int to = 0; to < (int)k.out.size(); to++) { if(root >= 0 && to != root) continue; Slot &S = *(Slot *)k.out[to]; for(int r = 0; r < (int)k.in.size(); r++) { if(k.in[r] == MPI_IN_PLACE) { if(r == to) continue; Slot &R = *(Slot *)k.out[r]; size_t nb = (size_t)R.cn[r] * R.re; if(nb != (size_t)S.cn[r] * S.re) fail(std::string(name) + ": counts differ"); if(nb) std::memcpy((char *)S.out + (size_t)S.dp[r] * S.re, (char *)R.out + (size_t)R.dp[r] * R.re, nb); continue; }
            if(k.n[r] != (size_t)S.cn[r] * S.re) fail(std::string(name) + ": rank " + std::to_string(r) + " sends " + std::to_string(k.n[r]) + " bytes and rank " + std::to_string(to) + " receives " + std::to_string((size_t)S.cn[r] * S.re)); if(k.n[r]) std::memmove((char *)S.out + (size_t)S.dp[r] * S.re, k.in[r], k.n[r]); } } });
    return 0;
}
}
inline int MPI_Gather(const void *in, int sn, MPI_Datatype st, void *out, int rn, MPI_Datatype rt, int root, MPI_Comm comm) { if(root < 0) fm::fail("bad root"); return fm::gatherv("MPI_Gather", in, sn, st, out, nullptr, nullptr, rn, rt, root, comm); }
inline int MPI_Gatherv(const void *in, int sn, MPI_Datatype st, void *out, const int *c, const int *d, MPI_Datatype rt, int root, MPI_Comm comm) { if(root < 0) fm::fail("bad root"); return fm::gatherv("MPI_Gatherv", in, sn, st, out, c, d, 0, rt, root, comm); }
inline int MPI_Allgather(const void *in, int sn, MPI_Datatype st, void *out, int rn, MPI_Datatype rt, MPI_Comm comm) { return fm::gatherv("MPI_Allgather", in, sn, st, out, nullptr, nullptr, rn, rt, -1, comm); }
inline int MPI_Allgatherv(const void *in, int sn, MPI_Datatype st, void *out, const int *c, const int *d, MPI_Datatype rt, MPI_Comm comm) { return fm::gatherv("MPI_Allgatherv", in, sn, st, out, c, d, 0, rt, -1, comm); }
#endif

// C07: set_external aliases memory, set copies it; writes go exactly where the description says; nothing else changes.
#include "pbt_main.hpp"
#include "model.hpp"
using namespace model; using namespace conduit;

// ------------------------------------------------------------------ a model of trees of leaves over shared storage
struct Store { std::vector<unsigned char> b; bool ext; };
struct X
{
    int id = DataType::EMPTY_ID; std::vector<std::pair<std::string, X> > kids;
    int st = -1; index_t n = 0, off = 0, stride = 0; bool owns = false;
    std::vector<int> holds;      // a compacted tree: one block at the root, the leaves are views of it
    bool leaf() const { return st >= 0; }
    bool obj() const { return id == DataType::OBJECT_ID; }
    bool list() const { return id == DataType::LIST_ID; }
    int find(const std::string &k) const { for(size_t i = 0; i < kids.size(); i++) if(kids[i].first == k) return (int)i; return -1; }
};
struct World
{
    std::vector<Store> st; std::vector<X> r;
    uint64_t get(const X &x, index_t i) const { return read_raw(&st[x.st].b[x.off + i * x.stride], ebytes(x.id), false); }
    void put(const X &x, index_t i, uint64_t v) { write_raw(&st[x.st].b[x.off + i * x.stride], ebytes(x.id), false, v); }
    M value(const X &x) const
    {
        M m; m.id = x.id;
        if(x.leaf()) for(index_t i = 0; i < x.n; i++) m.v.push_back(get(x, i));
        else for(auto &k : x.kids) m.kids.push_back(std::make_pair(k.first, value(k.second)));
        return m;
    }
    X own(int id, const std::vector<uint64_t> &v)
    {
        X x; x.id = id; x.n = (index_t)v.size(); x.off = 0; x.stride = ebytes(id); x.owns = true; x.st = (int)st.size();
        Store q; q.ext = false; q.b.resize(v.size() * ebytes(id)); st.push_back(q);
        for(size_t i = 0; i < v.size(); i++) put(x, (index_t)i, v[i]);
        return x;
    }
    // a deep copy; dst null storage
    X copy(const X &s)
    {
        if(s.leaf()) { std::vector<uint64_t> v; for(index_t i = 0; i < s.n; i++) v.push_back(get(s, i)); return own(s.id, v); }
        X x; x.id = s.id; for(auto &k : s.kids) x.kids.push_back(std::make_pair(k.first, copy(k.second))); return x;
    }
    X alias(const X &s) { X x = s; x.owns = false; x.holds.clear(); for(auto &k : x.kids) k.second = alias(k.second); return x; }
    void to_views(X &root, X &x) { if(x.leaf()) { root.holds.push_back(x.st); x.owns = false; } for(auto &k : x.kids) to_views(root, k.second); }
    void set_leaf(X &d, int id, const std::vector<uint64_t> &v)
    {
        if(d.leaf() && d.id == id && d.n >= (index_t)v.size()) { for(size_t i = 0; i < v.size(); i++) put(d, (index_t)i, v[i]); }
        else d = own(id, v);
    }
    void set(X &d, const X &s) { d = copy(s); }     // a node set from a node always gets memory of its own
    void update(X &d, const X &s, bool ext)
    {
        if(s.obj())
        {
            if(!d.obj() && !s.kids.empty()) { d = X(); d.id = DataType::OBJECT_ID; }
            for(auto &k : s.kids) { int i = d.find(k.first); if(i < 0) { d.kids.push_back(std::make_pair(k.first, X())); i = (int)d.kids.size() - 1; } update(d.kids[i].second, k.second, ext); }
        }
        else if(s.list())
        {
            if(!d.list() && !s.kids.empty()) { d = X(); d.id = DataType::LIST_ID; }
            for(size_t i = 0; i < s.kids.size(); i++) { if(i >= d.kids.size()) d.kids.push_back(std::make_pair(std::string(), X())); update(d.kids[i].second, s.kids[i].second, ext); }
        }
        else if(s.leaf()) { if(ext) d = alias(s); else { std::vector<uint64_t> v; for(index_t i = 0; i < s.n; i++) v.push_back(get(s, i)); set_leaf(d, s.id, v); } }
    }
    void update_compat(X &d, const X &s)
    {
        if(s.obj()) { for(auto &k : s.kids) { int i = d.obj() ? d.find(k.first) : -1; if(i >= 0) update_compat(d.kids[i].second, k.second); } }
        else if(s.list()) { if(d.list()) for(size_t i = 0; i < s.kids.size() && i < d.kids.size(); i++) update_compat(d.kids[i].second, s.kids[i].second); }
        else if(s.leaf() && d.leaf() && d.id == s.id && d.n >= s.n) { std::vector<uint64_t> v; for(index_t i = 0; i < s.n; i++) v.push_back(get(s, i)); for(index_t i = 0; i < s.n; i++) put(d, i, v[i]); }
    }
    // every leaf refers to an external buffer or to storage some leaf owns; storage written in place is not also being read through an overlapping view
    void refs(const X &x, std::vector<int> &owned, std::vector<int> &used) const
    { if(x.leaf()) { used[x.st]++; if(x.owns) owned[x.st]++; } for(int h : x.holds) owned[h]++; for(auto &k : x.kids) refs(k.second, owned, used); }
    bool sane() const
    {
        std::vector<int> o(st.size(), 0), u(st.size(), 0);
        for(auto &x : r) refs(x, o, u);
        for(size_t i = 0; i < st.size(); i++) if(u[i] && !st[i].ext && !o[i]) return false;
        return true;
    }
};
struct At { Node *n; X *x; std::vector<int> trail; };
static At walk(Source &s, Node &n, X &x)
{
    At a; a.n = &n; a.x = &x;
    while(!a.x->kids.empty() && s.chance(2, 3)) { int i = (int)s.draw(a.x->kids.size() - 1); a.trail.push_back(i); a.n = a.n->child_ptr(i); a.x = &a.x->kids[i].second; }
    return a;
}
static X *at(X &r, const std::vector<int> &t) { X *x = &r; for(int i : t) x = &x->kids[i].second; return x; }
static void check_ext(const Node &n, const X &x, const World &w, const std::vector<unsigned char *> &real, const std::string &path)
{
    if(x.leaf())
    {
        if(x.n > 0)
        {
            CHECK_EQ(n.is_data_external(), !x.owns, "is_data_external at " << path);
            if(w.st[x.st].ext) CHECK((const unsigned char *)n.element_ptr(0) == real[x.st] + x.off, "leaf " << path << " does not describe the memory it was given");
            if(w.st[x.st].ext && x.n > 1) CHECK((const unsigned char *)n.element_ptr(1) == real[x.st] + x.off + x.stride, "second element of " << path);
        }
    }
    for(size_t i = 0; i < x.kids.size(); i++) check_ext(n.child((index_t)i), x.kids[i].second, w, real, path + "/" + x.kids[i].first);
}
template<class T> static void set_ext(Source &s, Node &n, unsigned char *base, const X &x, int how)
{
    T *p = (T *)base; index_t eb = sizeof(T);
    DataType dt(x.id, x.n, x.off, x.stride, eb, Endianness::DEFAULT_ID);
    switch(how)
    {
        case 0: n.set_external(p, x.n, x.off, x.stride, eb, Endianness::DEFAULT_ID); break;
        case 1: n.set_external(dt, base); break;
        case 2: { DataArray<T> a(base, dt); n.set_external(a); break; }
        case 3: { Schema sc(dt); n.set_external(sc, base); break; }
        default: { Node t; t.set_external(dt, base); n.set_external(t); break; }
    }
    (void)s;
}
PBT(external_history, 90000, 600000)
{
    quiet();
    const int NB = 3, NR = 4; static const size_t BS = 256;
    World w; std::vector<unsigned char *> real;
    std::vector<std::unique_ptr<unsigned char[]> > bufs;
    for(int i = 0; i < NB; i++)
    {
        Store q; q.ext = true; q.b.resize(BS); for(auto &v : q.b) v = (unsigned char)s.draw(9);
        w.st.push_back(q); bufs.push_back(std::unique_ptr<unsigned char[]>(new unsigned char[BS])); memcpy(bufs[i].get(), q.b.data(), BS); real.push_back(bufs[i].get());
    }
    w.r.resize(NR);
    std::vector<std::unique_ptr<Node> > nd; for(int i = 0; i < NR; i++) nd.push_back(std::unique_ptr<Node>(new Node()));
    int nops = (int)s.range(1, 5 + s.sz * 2), ext = 0, writes = 0;
    for(int k = 0; k < nops; k++)
    {
        World o = w;              // undone if the operation would leave a dangling view
        int i = (int)s.draw(NR - 1), j = (int)s.draw(NR - 1); std::string op;
        std::function<void()> act;
        switch(s.weighted({6, 5, 3, 4, 5, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1}))
        {
            case 0: case 1:
            {   // a leaf at a path or an appended entry
                bool e = s.chance(3, 5); At a = walk(s, *nd[i], w.r[i]); Node *n = a.n; X *x = a.x;
                int where = (int)s.range(0, 2); std::string nm = gen_plain_name(s);
                X v; v.id = NUM_IDS[s.draw(9)]; int eb = ebytes(v.id);
                if(where == 1) { if(!x->obj()) { *x = X(); x->id = DataType::OBJECT_ID; } int q = x->find(nm); if(q < 0) { x->kids.push_back(std::make_pair(nm, X())); q = (int)x->kids.size() - 1; } x = &x->kids[q].second; }
                else if(where == 2) { if(!x->list()) { *x = X(); x->id = DataType::LIST_ID; } x->kids.push_back(std::make_pair(std::string(), X())); x = &x->kids.back().second; }
                auto dest = [=]() -> Node & { return where == 1 ? (*n)[nm] : where == 2 ? n->append() : *n; };
                if(e)
                {
                    v.st = (int)s.draw(NB - 1); v.n = s.range(0, 5); v.stride = eb * s.range(1, 3); v.off = eb * s.range(0, 6); v.owns = false;
                    *x = v; int how = (int)s.range(0, 4); unsigned char *b = real[v.st]; op = "set_external leaf " + std::to_string(how); ext++;
                    bool path = where == 1 && how == 0 && s.coin();
                    if(path) { op = "set_path_external"; act = [=, &s]() { by_type(v.id, [&](auto t) { typedef decltype(t) T; n->set_path_external(nm, (T *)b, v.n, v.off, v.stride, (index_t)sizeof(T), (index_t)Endianness::DEFAULT_ID); }); }; }
                    else act = [=, &s]() { by_type(v.id, [&](auto t) { set_ext<decltype(t)>(s, dest(), b, v, how); }); };
                }
                else
                {
                    M m; m.id = (x->leaf() && s.chance(2, 3)) ? x->id : v.id; int cnt = x->leaf() && s.coin() ? (int)x->n : (int)s.range(0, 6); for(int q = 0; q < cnt; q++) m.v.push_back(gen_val(s, m.id));
                    w.set_leaf(*x, m.id, m.v); op = "set leaf"; int how = (int)s.range(0, 3);
                    act = [=]() { Node &d = dest(); by_type(m.id, [&](auto t) { typedef decltype(t) T; std::vector<T> vv = as_vec<T>(m);
                        if(how == 0 && vv.size() == 1) d.set(vv[0]); else if(how == 1) d.set(vv); else if(how == 2) { DataArray<T> a(vv.data(), DataType(m.id, (index_t)vv.size())); d.set(a); } else { T z = 0; d.set(vv.empty() ? &z : vv.data(), (index_t)vv.size()); } }); };
                }
                break;
            }
            case 2: { if(i == j) break; At d = walk(s, *nd[i], w.r[i]), q = walk(s, *nd[j], w.r[j]); w.set(*d.x, *q.x); Node *a = d.n, *b = q.n; op = "set from node"; act = [=]() { if(b->dtype().is_empty()) a->reset(); else a->set(*b); }; if(!q.x->leaf() && q.x->id == DataType::EMPTY_ID) *d.x = X(); break; }
            case 3: { if(i == j) break; At d = walk(s, *nd[i], w.r[i]), q = walk(s, *nd[j], w.r[j]); *d.x = w.alias(*q.x); Node *a = d.n, *b = q.n; op = "set_external from node"; ext++; act = [=]() { a->set_external(*b); }; break; }
            case 4:
            {   // write through a node
                At a = walk(s, *nd[i], w.r[i]); if(!a.x->leaf() || a.x->n == 0) break;
                index_t e = (index_t)s.draw(a.x->n - 1); uint64_t v = gen_val(s, a.x->id); w.put(*a.x, e, v); Node *n = a.n; int id = a.x->id; int how = (int)s.range(0, 2); op = "write element"; writes++;
                act = [=]() { by_type(id, [&](auto t) { typedef decltype(t) T; T q; memcpy(&q, &v, sizeof(T)); DataArray<T> arr = n->value(); if(how == 0) arr[e] = q; else if(how == 1) *(T *)n->element_ptr(e) = q; else { DataAccessor<T> acc = n->value(); acc.set(e, q); } }); };
                break;
            }
            case 5: { int b = (int)s.draw(NB - 1); size_t p = s.draw(BS - 1); unsigned char v = (unsigned char)s.range(0, 255); w.st[b].b[p] = v; op = "write memory"; writes++; unsigned char *q = real[b] + p; act = [=]() { *q = v; }; break; }
            case 6: { if(i == j) break; w.r[i] = w.copy(w.r[j]); op = "copy construct"; act = [&, i, j]() { nd[i].reset(new Node(*nd[j])); }; break; }
            case 7: { if(i == j) break; bool any = w.r[j].id != DataType::EMPTY_ID; w.r[i] = w.copy(w.r[j]); if(!w.r[i].leaf()) w.to_views(w.r[i], w.r[i]); op = "compact_to"; act = [&, i, j, any]() { if(any) nd[j]->compact_to(*nd[i]); else nd[i]->reset(); }; break; }
            case 8: { At a = walk(s, *nd[i], w.r[i]); *a.x = X(); Node *n = a.n; op = "reset"; act = [=]() { n->reset(); }; break; }
            case 9: { At a = walk(s, *nd[i], w.r[i]); if(a.x->kids.empty()) break; int q = (int)s.draw(a.x->kids.size() - 1); a.x->kids.erase(a.x->kids.begin() + q); Node *n = a.n; op = "remove"; act = [=]() { n->remove((index_t)q); }; break; }
            case 10: { if(i == j) break; int how = (int)s.range(0, 2); X src = w.r[j]; if(how != 1) { std::vector<int> o1(w.st.size(), 0), u1(o1), o2(o1), u2(o1); w.refs(w.r[i], o1, u1); w.refs(src, o2, u2); bool ov = false; for(size_t q = 0; q < u1.size(); q++) ov |= u1[q] && u2[q]; if(ov) break; /* copies between overlapping ranges: undefined */ } if(how == 0) w.update(w.r[i], src, false); else if(how == 1) w.update(w.r[i], src, true); else w.update_compat(w.r[i], src); op = how == 0 ? "update" : how == 1 ? "update_external" : "update_compatible"; act = [&, i, j, how]() { if(how == 0) nd[i]->update(*nd[j]); else if(how == 1) nd[i]->update_external(*nd[j]); else nd[i]->update_compatible(*nd[j]); }; break; }
            case 11: { if(i == j) break; std::swap(w.r[i], w.r[j]); op = "swap"; act = [&, i, j]() { nd[i]->swap(*nd[j]); }; break; }
            case 12: { if(i == j) break; w.r[i] = w.r[j]; w.r[j] = X(); op = "move"; act = [&, i, j]() { nd[i]->move(*nd[j]); }; break; }
            case 13:
            {   // copies made from external views survive their memory
                Node *t = new Node(); M m = w.value(w.r[i]); { Node v; v.set_external(*nd[i]); CHECK_NODE(v, m, "view of a tree"); t->set(v); Node e; e.set_external(*t); CHECK_NODE(e, m, "view of a copy"); } CHECK_NODE(*t, m, "copy of a view that is gone"); delete t; break;
            }
            default: { // children moved into another tree keep describing their memory
                if(i == j) break; At d = walk(s, *nd[i], w.r[i]), q = walk(s, *nd[j], w.r[j]); if(d.trail.empty() || q.trail.empty()) break; std::swap(*d.x, *q.x); Node *a = d.n, *b = q.n; op = "swap children"; act = [=]() { a->swap(*b); }; break; }
        }
        if(!act) { w = o; continue; }
        if(!w.sane()) { w = o; continue; }
        if(c.want_desc) c.desc << op << " " << i << " " << j << "; ";
        act();
        for(int q = 0; q < NR; q++)
        {
            M m = w.value(w.r[q]);
            CHECK_NODE(*nd[q], m, "after " << op << " (tree " << q << ")");
            check_ext(*nd[q], w.r[q], w, real, "");
        }
        for(int q = 0; q < NB; q++) CHECK(memcmp(real[q], w.st[q].b.data(), BS) == 0, "external memory differs from what the writes prescribe after " << op);
    }
    c.nontrivial(ext >= 2 && writes >= 1);
    for(int q = NR - 1; q >= 0; q--) nd[q].reset();
    for(int q = 0; q < NB; q++) CHECK(memcmp(real[q], w.st[q].b.data(), BS) == 0, "destroying nodes changed external memory");
}

// ------------------------------------------------------------------ every typed entry point, with every layout
template<class T> struct Named;
#define NAMED(T) template<> struct Named<T> { \
    static void ptr(Node &n, T *p, index_t k, index_t o, index_t st, index_t e, index_t en) { n.set_external_##T##_ptr(p, k, o, st, e, en); } \
    static void arr(Node &n, const DataArray<T> &a) { n.set_external_##T##_array(a); } \
    static void vec(Node &n, std::vector<T> &v) { n.set_external_##T##_vector(v); } \
    static void pptr(Node &n, const std::string &q, T *p, index_t k, index_t o, index_t st, index_t e, index_t en) { n.set_path_external_##T##_ptr(q, p, k, o, st, e, en); } \
    static void parr(Node &n, const std::string &q, const DataArray<T> &a) { n.set_path_external_##T##_array(q, a); } \
    static void pvec(Node &n, const std::string &q, std::vector<T> &v) { n.set_path_external_##T##_vector(q, v); } \
    static void sptr(Node &n, T *p, index_t k, index_t o, index_t st, index_t e, index_t en) { n.set_##T##_ptr(p, k, o, st, e, en); } \
    static void sarr(Node &n, const DataArray<T> &a) { n.set_##T##_array(a); } \
    static void svec(Node &n, const std::vector<T> &v) { n.set_##T##_vector(v); } \
    static void spptr(Node &n, const std::string &q, T *p, index_t k, index_t o, index_t st, index_t e, index_t en) { n.set_path_##T##_ptr(q, p, k, o, st, e, en); } \
    static void sparr(Node &n, const std::string &q, const DataArray<T> &a) { n.set_path_##T##_array(q, a); } \
    static void spvec(Node &n, const std::string &q, const std::vector<T> &v) { n.set_path_##T##_vector(q, v); } };
NAMED(int8) NAMED(int16) NAMED(int32) NAMED(int64) NAMED(uint8) NAMED(uint16) NAMED(uint32) NAMED(uint64) NAMED(float32) NAMED(float64)

PBT(typed_entry_points, 60000, 1000000)
{
    quiet(); GenOpts g; g.strings = false; M m = gen_leaf(s, g);
    while(m.v.empty()) m.v.push_back(gen_val(s, m.id));
    bool ext = s.chance(2, 3); int how = (int)s.range(0, ext ? 11 : 11); std::string path = s.coin() ? "p/q" : "p"; int eb = ebytes(m.id);
    bool lay = how % 6 == 0 || how % 6 == 1 || how % 6 == 3 || how % 6 == 4;      // pointer and array forms take a layout
    index_t off = lay && s.coin() ? eb * s.range(0, 3) : 0, stride = lay && s.coin() ? eb * s.range(1, 3) : eb;
    bool big = lay && ext && s.chance(1, 4); index_t en = big ? Endianness::BIG_ID : s.coin() ? Endianness::DEFAULT_ID : Endianness::LITTLE_ID;
    index_t n = (index_t)m.v.size(); size_t nb = (size_t)(off + stride * (n - 1) + eb);
    c.nontrivial(n >= 2 && (stride != eb || off));
    if(c.want_desc) c.desc << (ext ? "external " : "copy ") << how << " off " << off << " stride " << stride << (big ? " big " : " ") << m.str_();
    by_type(m.id, [&](auto t) {
        typedef decltype(t) T; std::unique_ptr<unsigned char[]> buf(new unsigned char[nb]); for(size_t i = 0; i < nb; i++) buf[i] = Arena::pat(i);
        for(index_t i = 0; i < n; i++) write_raw(&buf[off + i * stride], eb, big, m.v[i]);
        T *p = (T *)buf.get(); DataType dt(m.id, n, off, stride, eb, en); DataArray<T> arr(buf.get(), dt); std::vector<T> vec = as_vec<T>(m);
        std::unique_ptr<Node> root(new Node()); if(s.coin()) { (*root)["old"] = 3; if(s.coin()) (*root)["p"] = "text"; }
        typedef Named<T> N; bool pth = how % 6 >= 3; Node &r = *root; bool vecform = how % 6 == 2 || how % 6 == 5;
        if(ext) switch(how)
        {
            case 0: N::ptr(r, p, n, off, stride, eb, en); break; case 1: N::arr(r, arr); break; case 2: N::vec(r, vec); break;
            case 3: N::pptr(r, path, p, n, off, stride, eb, en); break; case 4: N::parr(r, path, arr); break; case 5: N::pvec(r, path, vec); break;
            case 6: r.set_external(p, n, off, stride, eb, en); break; case 7: r.set_external(arr); break; case 8: r.set_external(vec); break;
            case 9: r.set_path_external(path, p, n, off, stride, eb, en); break; case 10: r.set_path_external(path, arr); break; default: r.set_path_external(path, vec); break;
        }
        else switch(how)
        {
            case 0: N::sptr(r, p, n, off, stride, eb, en); break; case 1: N::sarr(r, arr); break; case 2: N::svec(r, vec); break;
            case 3: N::spptr(r, path, p, n, off, stride, eb, en); break; case 4: N::sparr(r, path, arr); break; case 5: N::spvec(r, path, vec); break;
            case 6: r.set(p, n, off, stride, eb, en); break; case 7: r.set(arr); break; case 8: r.set(vec); break;
            case 9: r.set_path(path, p, n, off, stride, eb, en); break; case 10: r.set_path(path, arr); break; default: r.set_path(path, vec); break;
        }
        Node &l = pth ? r[path] : r; CHECK_NODE(l, m, "value");
        CHECK_EQ(l.is_data_external(), ext, "is_data_external");
        unsigned char *base = vecform ? (unsigned char *)vec.data() : buf.get();
        if(ext) CHECK((unsigned char *)l.element_ptr(0) == base + off && (n < 2 || (unsigned char *)l.element_ptr(1) == base + off + stride), "describes other memory");
        // writes through the node and through the memory
        index_t e = (index_t)s.draw(n - 1); uint64_t v = gen_val(s, m.id); M m2 = m; m2.v[e] = v;
        if(s.coin()) { write_raw(base + off + e * stride, eb, big, v); CHECK_NODE(l, ext ? m2 : m, "after the memory was written"); }
        else { write_raw((unsigned char *)l.element_ptr(e), eb, l.dtype().endianness() == Endianness::BIG_ID, v); CHECK_NODE(l, m2, "after the node was written");
               CHECK(same_val(m.id, read_raw(base + off + e * stride, eb, big), ext ? v : m.v[e]), "memory after the node was written"); }
        root.reset();
        if(!vecform) for(size_t i = 0; i < nb; i++) { bool used = false; for(index_t k = 0; k < n; k++) if(i >= (size_t)(off + k * stride) && i < (size_t)(off + k * stride + eb)) used = true; if(!used) CHECK(buf[i] == Arena::pat(i), "gap byte changed"); }
    });
}
// whole trees of strided leaves written from trees and arrays with layouts of their own
static void vals(Source &s, M &m) { for(auto &k : m.kids) vals(s, k.second); if(m.num()) for(auto &v : m.v) v = gen_val(s, m.id); }
static void shrink_some(Source &s, M &m) { for(auto &k : m.kids) shrink_some(s, k.second); if(m.num() && !m.v.empty() && s.chance(1, 5)) m.v.resize(s.draw(m.v.size())); }
static void overlay(M &d, const M &x) { for(size_t i = 0; i < d.kids.size(); i++) overlay(d.kids[i].second, x.kids[i].second); for(size_t i = 0; i < x.v.size(); i++) d.v[i] = x.v[i]; }
PBT(strided_updates, 30000, 1200000)
{
    quiet(); GenOpts g; g.strings = false; g.max_depth = 2; g.max_kids = 4; g.max_ele = 6; g.empties = false;
    M a = gen_tree(s, g), b = a; vals(s, b); shrink_some(s, b); Arena A, B; Node na, nb; build(s, na, a, &A); build(s, nb, b, &B);
    std::vector<const void *> before; std::function<void(const Node &)> ptrs = [&](const Node &n) { if(n.number_of_children() == 0) before.push_back(n.data_ptr()); for(index_t i = 0; i < n.number_of_children(); i++) ptrs(n.child(i)); };
    ptrs(na); std::vector<const void *> p0 = before; before.clear();
    M want = a; overlay(want, b); c.nontrivial(a.leaves() >= 2); int how = (int)s.range(0, 2); if(c.want_desc) c.desc << how << ": " << a.str_() << " from " << b.str_();
    if(how == 0) na.update(nb); else if(how == 1) na.update_compatible(nb);
    else { std::function<void(Node &, Node &)> each = [&](Node &x, Node &y) { for(index_t i = 0; i < x.number_of_children(); i++) each(x.child(i), y.child(i)); if(x.dtype().is_number()) by_type((int)y.dtype().id(), [&](auto t) { typedef decltype(t) T; DataArray<T> arr = y.value();
               if(s.coin()) x.set(arr); else x.set((T *)y.data_ptr(), y.dtype().number_of_elements(), y.dtype().offset(), y.dtype().stride(), y.dtype().element_bytes(), y.dtype().endianness()); }); }; each(na, nb); }
    CHECK_NODE(na, want, "after the update"); CHECK_NODE(nb, b, "the source"); A.check_gaps("update"); B.check_gaps("update (source)");
    ptrs(na); CHECK(p0 == before, "a write that fits must stay in place");
}
PBT(external_strings, 20000, 300000)
{
    quiet(); GenOpts g; std::string t = gen_string(s, g), u = gen_string(s, g); int pad = (int)s.range(0, 12);
    size_t nb = t.size() + 1 + pad; std::unique_ptr<char[]> b(new char[nb]); memset(b.get(), 0, nb); memcpy(b.get(), t.c_str(), t.size() + 1);
    c.nontrivial(t.size() >= 2); if(c.want_desc) c.desc << pbt::json_str(t) << " then " << pbt::json_str(u);
    Node n; int how = (int)s.range(0, 3);
    if(how == 0) n.set_external_char8_str(b.get()); else if(how == 1) n.set_path_external_char8_str("a", b.get()); else if(how == 2) n.set_external(DataType::char8_str((index_t)nb), b.get()); else { Node v; v.set_external_char8_str(b.get()); n.set_external(v); }
    Node &l = how == 1 ? n["a"] : n;
    CHECK_EQ(l.as_string(), t, "string"); CHECK(l.as_char8_str() == b.get(), "other memory"); CHECK(l.is_data_external(), "external");
    Node cp(l); if(!t.empty()) { b[0] = 'Z'; CHECK_EQ(l.as_string(), "Z" + t.substr(1), "view after the memory was written"); CHECK_EQ(cp.as_string(), t, "copy after the memory was written"); b[0] = t[0]; }
    // set: in place where it fits, else a new allocation; the external memory is never written past its end
    index_t room = l.dtype().number_of_elements(); l.set(u); CHECK_EQ(l.as_string(), u, "after set");
    bool fits = (index_t)u.size() + 1 <= room;
    if(!fits) CHECK(std::string(b.get()) == t && !l.is_data_external(), "a longer string was written into external memory");
    else CHECK(!l.is_data_external() || std::string(b.get()) == u, "set in place");
}

// every native C++ type in every form of set and assignment, into fresh leaves and in place
template<class T, class F> static void by_len(const std::vector<T> &v, F f)
{
    switch(v.size()) { case 1: f(std::initializer_list<T>{v[0]}); break; case 2: f(std::initializer_list<T>{v[0], v[1]}); break; case 3: f(std::initializer_list<T>{v[0], v[1], v[2]}); break; default: f(std::initializer_list<T>{v[0], v[1], v[2], v[3]}); }
}
template<class T> struct NamedIl { static bool put(Node &, const std::initializer_list<T> &) { return false; } };
#define NAMED_IL(T) template<> struct NamedIl<T> { static bool put(Node &n, const std::initializer_list<T> &l) { n.set_##T##_initializer_list(l); return true; } };
NAMED_IL(int8) NAMED_IL(int16) NAMED_IL(int32) NAMED_IL(int64) NAMED_IL(uint8) NAMED_IL(uint16) NAMED_IL(uint32) NAMED_IL(uint64) NAMED_IL(float32) NAMED_IL(float64)
template<class T> static int std_id() { return std::is_floating_point<T>::value ? (sizeof(T) == 4 ? DataType::FLOAT32_ID : DataType::FLOAT64_ID) : std::is_signed<T>::value ? (sizeof(T) == 1 ? DataType::INT8_ID : sizeof(T) == 2 ? DataType::INT16_ID : sizeof(T) == 4 ? DataType::INT32_ID : DataType::INT64_ID) : (sizeof(T) == 1 ? DataType::UINT8_ID : sizeof(T) == 2 ? DataType::UINT16_ID : sizeof(T) == 4 ? DataType::UINT32_ID : DataType::UINT64_ID); }
template<class T> struct Ptr { static void put(Node &n, const std::vector<T> &, T *p, index_t k, index_t o, index_t st) { n.set(p, k, o, st); } static void path(Node &n, const std::string &q, const std::vector<T> &, T *p, index_t k, index_t o, index_t st) { n.set_path(q, p, k, o, st); } static void ext(Node &n, T *p, index_t k) { n.set_external(p, k); } };
// (char pointers are strings)
template<> struct Ptr<char> { static void put(Node &n, const std::vector<char> &v, char *, index_t, index_t, index_t) { n.set(v); } static void path(Node &n, const std::string &q, const std::vector<char> &v, char *, index_t, index_t, index_t) { n.set_path(q, v); } static void ext(Node &n, char *p, index_t k) { n.set_external((signed char *)p, k); } };
template<class T> static void forms(Source &s, pbt::Ctx &c)
{
    int id = std_id<T>(), eb = (int)sizeof(T); M m; m.id = id; int len = (int)s.range(1, 4); for(int i = 0; i < len; i++) m.v.push_back(gen_val(s, id)); std::vector<T> v = as_vec<T>(m);
    // what is there before
    Node root; int old = (int)s.range(0, 3); std::string path = s.coin() ? "a/b" : "a"; bool pth = s.chance(1, 3); M before; Arena A; bool inplace = false; const void *p0 = NULL;
    if(old == 1) { before.id = s.coin() ? id : NUM_IDS[s.draw(9)]; int k = (int)s.range(1, 6); for(int i = 0; i < k; i++) before.v.push_back(gen_val(s, before.id)); DataType dt; unsigned char *b = A.leaf(s, before, dt, false, true); (pth ? root[path] : root).set_external(dt, b); }
    else if(old == 2) { before.id = id; int k = (int)s.range(1, 6); for(int i = 0; i < k; i++) before.v.push_back(gen_val(s, id)); build_plain(pth ? root[path] : root, before); }
    else if(old == 3) { if(pth) root[path + "/x"] = 1; else root["x"] = "text"; }
    bool other = pth && s.coin(); if(other) root["other"] = 7;
    int how = pth ? (int)s.range(0, 3) : (int)s.range(0, 10); bool scalar = how == 0 || (!pth && how == 1); M want; M src = m; if(scalar) { src.v.resize(1); }
    if((old == 1 || old == 2) && before.id == id && before.v.size() >= src.v.size()) { inplace = true; want = before; for(size_t i = 0; i < src.v.size(); i++) want.v[i] = src.v[i]; p0 = (pth ? root[path] : root).data_ptr(); } else want = src;
    c.nontrivial(inplace || len > 1); c.desc << "type " << DataType::id_to_name(id) << " form " << how << (pth ? " path" : "") << " onto " << old << " " << before.str_() << " from " << src.str_();
    index_t stride = eb * (s.coin() ? 1 : s.range(1, 3)), off = eb * (s.coin() ? 0 : s.range(0, 2)); std::vector<unsigned char> raw(off + stride * len + eb); for(int i = 0; i < len; i++) memcpy(&raw[off + stride * i], &v[i], eb); DataArray<T> arr(raw.data(), DataType(id, len, off, stride, eb, Endianness::DEFAULT_ID));
    Node &n = root;
    if(pth) switch(how) { case 0: n.set_path(path, v[0]); break; case 1: n.set_path(path, v); break; case 2: n.set_path(path, arr); break; default: Ptr<T>::path(n, path, v, (T *)raw.data(), len, off, stride); }
    else switch(how)
    {
        case 0: n.set(v[0]); break; case 1: n = v[0]; break; case 2: n.set(v); break; case 3: n = v; break; case 4: n.set(arr); break; case 5: n = arr; break; case 6: Ptr<T>::put(n, v, (T *)raw.data(), len, off, stride); break;
        case 7: case 8: by_len(v, [&](const std::initializer_list<T> &l) { n.set(l); }); break; case 9: by_len(v, [&](const std::initializer_list<T> &l) { n = l; }); break;
        default: by_len(v, [&](const std::initializer_list<T> &l) { if(!NamedIl<T>::put(n, l)) n.set(l); });
    }
    Node &l = pth ? n[path] : n; CHECK_NODE(l, want, "value"); A.check_gaps("set"); if(other) CHECK_EQ(n["other"].to_int(), 7, "other child"); if(inplace) CHECK(l.data_ptr() == p0, "a write that fits must stay in place"); else CHECK(!l.is_data_external(), "a copy is not external");
    raw.assign(raw.size(), 0x5a); v.assign(v.size(), (T)0); CHECK_NODE(l, want, "after the source was changed");
    // typed reads through value(), const and not
    const Node &cl = l; v = as_vec<T>(want); size_t cnt = v.size(); auto eq = [](T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; };
    { T x = l.value(); CHECK(eq(x, v[0]), "value()"); T *p = l.value(); CHECK(eq(p[0], v[0]) && (void *)p == l.element_ptr(0), "pointer of value()"); DataArray<T> a = l.value(); DataAccessor<T> ac = l.value(); CHECK_EQ((size_t)a.number_of_elements(), cnt, "array length"); CHECK_EQ((size_t)ac.number_of_elements(), cnt, "accessor length"); for(size_t i = 0; i < cnt; i++) { CHECK(eq(a[(index_t)i], v[i]), "array of value()"); CHECK(eq(ac[(index_t)i], v[i]), "accessor of value()"); } }
    { T x = cl.value(); CHECK(eq(x, v[0]), "const value()"); const T *p = cl.value(); CHECK((void *)p == l.element_ptr(0), "const pointer of value()"); DataAccessor<T> ac = cl.value(); CHECK_EQ((size_t)ac.number_of_elements(), cnt, "const accessor length"); for(size_t i = 0; i < cnt; i++) CHECK(eq(ac[(index_t)i], v[i]), "accessor of const value()"); }
    // external forms
    { std::vector<T> w = v; Node e; int k = (int)s.range(0, 2); if(k == 0) Ptr<T>::ext(e, w.data(), (index_t)cnt); else if(k == 1) e.set_external(w); else { DataArray<T> a(w.data(), DataType(id, (index_t)cnt)); e.set_external(a); } CHECK_NODE(e, want, "external"); CHECK(e.data_ptr() == (void *)w.data(), "external memory"); w[0] = (T)1; T x = e.value(); CHECK(eq(x, (T)1), "external write"); }
}
PBT(native_forms, 60000, 600000)
{
    quiet();
    switch(s.range(0, 12)) { case 0: forms<char>(s, c); break; case 1: forms<signed char>(s, c); break; case 2: forms<short>(s, c); break; case 3: forms<int>(s, c); break; case 4: forms<long>(s, c); break; case 5: forms<long long>(s, c); break; case 6: forms<unsigned char>(s, c); break; case 7: forms<unsigned short>(s, c); break; case 8: forms<unsigned int>(s, c); break; case 9: forms<unsigned long>(s, c); break; case 10: forms<unsigned long long>(s, c); break; case 11: forms<float>(s, c); break; default: forms<double>(s, c); }
}
// types, schemas and memory given by path
PBT(path_forms, 20000, 200000)
{
    quiet(); GenOpts g; g.strings = false; g.empties = false; g.max_depth = 2; M m = gen_tree(s, g); Arena A; Node src; build(s, src, m, &A, false, true); Node flat; src.compact_to(flat); Schema sc(flat.schema()); std::vector<unsigned char> mem; flat.serialize(mem); if(mem.empty()) mem.resize(1);
    std::string path = s.pick<std::string>({"a", "a/b", "x/y/z"}); Node r; if(s.coin()) r["old"] = 5; if(s.coin()) r["a"] = "text"; int how = (int)s.range(0, 4); if(!m.num() && (how == 3 || how == 4)) how = 1; c.nontrivial(m.leaves() > 1); c.desc << how << " " << path << " " << m.str_(); bool ext = false;
    if(how == 0) { r.set_path(path, sc); CHECK(r[path].schema().equals(sc), "schema at the path"); if(r.has_child("old")) CHECK_EQ(r["old"].to_int(), 5, "other child"); Schema z; sc.compact_to(z); CHECK_EQ(r[path].total_bytes_compact(), z.total_bytes_compact(), "size"); return; }
    if(how == 1) r.set_path(path, sc, mem.data()); else if(how == 2) { r.set_path_external(path, sc, mem.data()); ext = true; }
    else if(how == 3) r.set_path(path, sc.dtype(), mem.data()); else { r.set_path_external(path, sc.dtype(), mem.data()); ext = true; }
    CHECK_NODE(r[path], m, "value at the path"); if(r.has_child("old")) CHECK_EQ(r["old"].to_int(), 5, "other child");
    std::vector<unsigned char> keep = mem; for(auto &b : mem) b ^= 0xff; M now = model::read(r[path]); if(!ext) CHECK(now == m, "a copy follows its source"); else { for(auto &b : mem) b ^= 0xff; CHECK_NODE(r[path], m, "memory restored"); if(flat.total_bytes_compact() > 0) { std::function<Node *(Node &)> leaf = [&](Node &n) -> Node * { if(n.number_of_children() == 0) return n.dtype().is_number() && n.dtype().number_of_elements() > 0 ? &n : NULL; for(index_t i = 0; i < n.number_of_children(); i++) { Node *q = leaf(n.child(i)); if(q) return q; } return NULL; }; Node *l = leaf(r[path]); if(l) { CHECK((unsigned char *)l->element_ptr(0) >= mem.data() && (unsigned char *)l->element_ptr(0) < mem.data() + mem.size(), "external leaf elsewhere"); } } }
}
PBT_MAIN()

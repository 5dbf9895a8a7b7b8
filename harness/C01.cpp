// C01: a Node behaves as an ordered tree of named / listed / leaf values under any
// history of tree operations; every view of it agrees.
#include "pbt_main.hpp"
#include "model.hpp"
using namespace model;

// ---- model of the path rules
static std::vector<std::string> comps(const std::string &p)
{
    std::vector<std::string> r; std::string cur;
    for(char ch : p) { if(ch == '/') { if(!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; }
    if(!cur.empty()) r.push_back(cur);
    return r;
}
static M *mfetch(M &m, const std::string &path)
{
    std::vector<M *> st(1, &m);
    for(auto &x : comps(path))
    {
        if(x == ".." && st.size() > 1)
        {   // fetching makes the node it starts from an object
            if(!st.back()->obj()) *st.back() = M::Obj();
            st.pop_back(); continue;
        }
        M *k = &st.back()->child(x); st.push_back(k);
    }
    return st.back();
}
static M *mexisting(M &m, const std::string &path)
{
    M *c = &m;
    for(auto &x : comps(path)) { int i = c->find(x); if(i < 0) return NULL; c = &c->kids[i].second; }
    return c;
}
static std::string gen_path(Source &s, bool redundant)
{
    GenOpts g; int n = (int)s.range(1, 3); std::string r;
    if(redundant && s.chance(1, 6)) r += "/";
    for(int i = 0; i < n; i++)
    {
        if(i) r += (redundant && s.chance(1, 8)) ? "//" : "/";
        std::string nm = gen_name(s, g);
        r += nm;
        if(redundant && s.chance(1, 12)) r += "/../" + gen_name(s, g);
    }
    return r;
}
// leaf set onto an existing leaf: a compatible destination keeps its element count
static void mset_leaf(M &dst, const M &src)
{
    if(dst.id == src.id && src.num() && dst.v.size() >= src.v.size())
    { for(size_t i = 0; i < src.v.size(); i++) dst.v[i] = src.v[i]; }
    else dst = src;
}
static void mupdate(M &dst, const M &src)
{
    if(src.obj())
    {
        if(!dst.obj() && !src.kids.empty()) { dst = M::Obj(); }
        for(auto &k : src.kids) mupdate(dst.child(k.first), k.second);
    }
    else if(src.list())
    {
        if(!dst.list() && !src.kids.empty()) dst = M::List();
        for(size_t i = 0; i < src.kids.size(); i++)
        {
            if(i >= dst.kids.size()) dst.kids.push_back(std::make_pair(std::string(), M()));
            mupdate(dst.kids[i].second, src.kids[i].second);
        }
    }
    else if(src.num()) mset_leaf(dst, src);
    else if(src.str()) dst = src;
}
static bool dst_str_longer(const Node &d, const M &s)
{ return d.dtype().is_string() && s.str() && d.dtype().number_of_elements() >= (index_t)s.v.size() + 1; }
static void mupdate_compat(M &dst, const M &src, const Node &d)
{
    if(src.obj()) { for(auto &k : src.kids) { int i = dst.find(k.first); if(i >= 0) mupdate_compat(dst.kids[i].second, k.second, d.child(i)); } }
    else if(src.list()) { if(dst.list()) for(size_t i = 0; i < src.kids.size() && i < dst.kids.size(); i++) mupdate_compat(dst.kids[i].second, src.kids[i].second, d.child(i)); }
    else if(src.num()) { if(dst.id == src.id && dst.v.size() >= src.v.size()) for(size_t i = 0; i < src.v.size(); i++) dst.v[i] = src.v[i]; }
    else if(src.str()) { if(dst_str_longer(d, src)) dst = src; }
}

struct Cursor { Node *n; M *m; std::string path; std::vector<int> trail; };
static Cursor walk(Source &s, Node &root, M &m)
{
    Cursor c; c.n = &root; c.m = &m;
    while(!c.m->kids.empty() && s.chance(3, 5))
    {
        int i = (int)s.draw(c.m->kids.size() - 1);
        c.path += "/" + (c.m->obj() ? c.m->kids[i].first : std::to_string(i));
        c.trail.push_back(i);
        c.n = c.n->child_ptr(i); c.m = &c.m->kids[i].second;
    }
    return c;
}
template<class F> static bool throws(F f)
{ try { f(); } catch(conduit::Error &) { return true; } return false; }

static void check_all(Node *roots, M *ms, int nr, const char *op)
{
    for(int i = 0; i < nr; i++)
    {
        try { check_views(roots[i], ms[i], NULL, ""); }
        catch(Fail &f) { throw Fail(std::string("after ") + op + " (root " + std::to_string(i) + "): " + f.what()); }
        CHECK_NODE(roots[i], ms[i], "after " << op << " (root " << i << ")");
    }
}

static void history(Source &s, pbt::Ctx &c, bool slashes)
{
    quiet();
    const int NR = 3;
    // the roots live longer than the model cursor; one more scratch node comes and goes
    Node roots[NR]; M ms[NR];
    GenOpts g; g.max_depth = 3; g.max_kids = 4; g.max_ele = 6; g.slash_names = slashes;
    int nops = (int)s.range(1, 4 + s.sz * 2), structural = 0;
    for(int k = 0; k < nops; k++)
    {
        int r = (int)s.draw(NR - 1);
        Cursor a = walk(s, roots[r], ms[r]);
        const char *op = "";
        std::ostringstream d;
        switch(s.weighted({8, 5, 4, 4, 4, 3, 3, 5, 5, 4, 3, 3, 6, 3, 2, 3, 2, 4, 2}))
        {
        case 0: { op = "set by path"; std::string p = gen_path(s, true); M l = gen_leaf(s, g);
                  d << p << " = " << l.str_();
                  M *t = mfetch(*a.m, p); Node &tn = s.coin() ? a.n->fetch(p) : (*a.n)[p];
                  if(l.str()) *t = l; else mset_leaf(*t, l);
                  if(l.str() && tn.dtype().is_string() ) { }
                  set_leaf(s, tn, l); break; }
        case 1: { op = "fetch"; std::string p = gen_path(s, true); d << p; mfetch(*a.m, p); a.n->fetch(p); break; }
        case 2: { op = "append"; if(!a.m->list()) *a.m = M::List();
                  M l = s.coin() ? gen_leaf(s, g) : M(); a.m->kids.push_back(std::make_pair(std::string(), l));
                  Node &x = a.n->append(); if(l.leaf()) set_leaf(s, x, l); d << l.str_(); break; }
        case 3: { op = "add_child"; std::string nm = gen_name(s, g); d << pbt::json_str(nm);
                  a.m->child(nm); a.n->add_child(nm); break; }
        case 4: { op = "remove by index"; if(a.m->kids.empty()) break; int i = (int)s.draw(a.m->kids.size() - 1); d << i;
                  a.m->kids.erase(a.m->kids.begin() + i); a.n->remove(i); structural++; break; }
        case 5: { op = "remove by name"; if(!a.m->obj() || a.m->kids.empty()) break;
                  int i = (int)s.draw(a.m->kids.size() - 1); std::string nm = a.m->kids[i].first; d << pbt::json_str(nm);
                  a.m->kids.erase(a.m->kids.begin() + i);
                  if(nm.find('/') == std::string::npos && s.coin()) a.n->remove(nm); else a.n->remove_child(nm);
                  structural++; break; }
        case 6: { op = "rename_child"; if(!a.m->obj() || a.m->kids.empty()) break;
                  int i = (int)s.draw(a.m->kids.size() - 1); std::string o = a.m->kids[i].first, nn = gen_name(s, g);
                  d << pbt::json_str(o) << " -> " << pbt::json_str(nn);
                  if(a.m->find(nn) >= 0)
                  { CHECK(throws([&]() { a.n->rename_child(o, nn); }), "rename_child onto an existing name must be an error"); break; }
                  a.n->rename_child(o, nn); a.m->kids[i].first = nn; structural++; break; }
        case 7: { op = "set(node)"; int q = (int)s.draw(NR - 1); Cursor b = walk(s, roots[q], ms[q]);
                  if(q == r && a.n != b.n) c.label("set-within-tree");
                  d << "from root " << q << " " << b.path; M copy = *b.m; *a.m = copy; if(s.coin()) a.n->set(*b.n); else *a.n = *b.n; structural++; break; }
        case 8: { op = "build subtree"; M t = gen_tree(s, g, 1); d << t.str_(); Node tmp; build(s, tmp, t); *a.m = t; a.n->set(tmp); break; }
        case 9: { op = "update"; int q = (int)s.draw(NR - 1); if(q == r) break; Cursor b = walk(s, roots[q], ms[q]);
                  d << "from root " << q << " " << b.path;
                  M before = *a.m; mupdate(*a.m, *b.m); a.n->update(*b.n); structural++; break; }
        case 10: { op = "update_compatible"; int q = (int)s.draw(NR - 1); if(q == r) break; Cursor b = walk(s, roots[q], ms[q]);
                  d << "from root " << q << " " << b.path;
                  mupdate_compat(*a.m, *b.m, *a.n); a.n->update_compatible(*b.n); break; }
        case 11: { op = "reset"; *a.m = M(); a.n->reset(); break; }
        case 12: { op = "swap"; int q = (int)s.draw(NR - 1); Cursor b = walk(s, roots[q], ms[q]);
                  if(q == r)
                  {   // neither may contain the other
                      size_t i = 0; while(i < a.trail.size() && i < b.trail.size() && a.trail[i] == b.trail[i]) i++;
                      if(i == a.trail.size() || i == b.trail.size()) break;
                      c.label("swap-in-tree");
                  }
                  d << a.path << " with root " << q << " " << b.path;
                  std::swap(*a.m, *b.m); a.n->swap(*b.n); structural++; break; }
        case 13: { op = "move"; int q = (int)s.draw(NR - 1); if(q == r) break; Cursor b = walk(s, roots[q], ms[q]);
                  d << "from root " << q << " " << b.path; *a.m = *b.m; *b.m = M(); a.n->move(*b.n); structural++; break; }
        case 14: { op = "move from a local"; M t = gen_tree(s, g, 1); d << t.str_();
                  { Node tmp; build(s, tmp, t); a.n->move(tmp); CHECK(tmp.dtype().is_empty() && tmp.number_of_children() == 0, "a moved-from node is empty"); }
                  *a.m = t; structural++; break; }
        case 15: { op = "failing lookups";
                  std::string p = gen_path(s, false) + "/zz"; d << p;
                  const Node &cn = *a.n;
                  CHECK(mexisting(*a.m, p) == NULL, "");
                  CHECK(throws([&]() { a.n->fetch_existing(p); }), "fetch_existing of a missing path must be an error");
                  index_t past = a.n->number_of_children() + (index_t)s.draw(2), neg = -1 - (index_t)s.draw(2);
                  CHECK(throws([&]() { a.n->remove(past); }) && throws([&]() { a.n->remove(neg); }), "remove of an index out of range must be an error");
                  CHECK(throws([&]() { a.n->child(past); }) && throws([&]() { cn.child(past); }) && throws([&]() { a.n->child(neg); }), "child() of an index out of range must be an error");
                  CHECK(throws([&]() { cn.fetch_existing(p); }) && throws([&]() { cn[p]; }), "const fetch of a missing path must be an error");
                  CHECK(!a.n->has_path(p), "has_path of a missing path");
                  if(a.m->obj()) { CHECK(throws([&]() { a.n->child("zz"); }), "child() of a missing name must be an error");
                                   CHECK(throws([&]() { a.n->remove_child("zz"); }), "remove_child of a missing name must be an error");
                                   CHECK(throws([&]() { a.n->rename_child("zz", "y"); }), "rename_child of a missing name must be an error"); }
                  break; }
        case 17: { op = "remove by path"; Cursor b = walk(s, *a.n, *a.m); if(b.trail.size() < 2) break;
                  M *pm = a.m; bool ok = true; std::string p; 
                  for(size_t i = 0; i < b.trail.size(); i++)
                  { if(!pm->obj() || pm->kids[b.trail[i]].first.find('/') != std::string::npos) { ok = false; break; }
                    p += (i ? "/" : "") + pm->kids[b.trail[i]].first; if(i + 1 < b.trail.size()) pm = &pm->kids[b.trail[i]].second; }
                  if(!ok) break;
                  d << p; c.label("remove-deep"); a.n->remove(p); pm->kids.erase(pm->kids.begin() + b.trail.back()); structural++; break; }
        case 18: { op = "list_of"; int id = NUM_IDS[s.draw(9)]; int k = (int)s.range(0, 3), n = (int)s.range(1, 3); d << k << "x" << n << " " << idname(id);
                  M l; l.id = id; l.v.assign(n, 0); *a.m = M::List(); for(int i = 0; i < k; i++) a.m->kids.push_back(std::make_pair(std::string(), l));
                  // the entries of list_of are views of one buffer held by the list, so they may not be moved out of it: copy
                  Node lo; lo.append().set(1); lo.list_of(DataType(id, n), k); CHECK_NODE(lo, *a.m, "list_of"); check_views(lo, *a.m, NULL, "");
                  a.n->set(lo); break; }
        case 16: { op = "copy construct"; Node cp(*a.n); M want = *a.m;
                  check_views(cp, want, NULL, ""); CHECK_NODE(cp, want, "copy"); break; }
        }
        if(c.want_desc) c.desc << op << " @" << r << a.path << " " << d.str() << "; ";
        c.label(op);
        check_all(roots, ms, NR, op);
    }
    // existing paths resolve, redundant slashes are ignored
    for(int r = 0; r < NR; r++)
    {
        Cursor a = walk(s, roots[r], ms[r]);
        std::string p = gen_path(s, true);
        M *e = mexisting(*a.m, p);
        if(e && a.m->obj() && p.find("..") == std::string::npos) { CHECK_NODE(a.n->fetch_existing(p), *e, "fetch_existing " << p); c.label("existing-path"); }
        if(comps(p).size() && a.m->obj() && p.find("//") == std::string::npos && p.find("..") == std::string::npos)
            CHECK_EQ(a.n->has_path(p), e != NULL, "has_path " << p);
    }
    size_t tot = ms[0].count() + ms[1].count() + ms[2].count();
    c.nontrivial(structural >= 2 && tot >= 8);
}
PBT(tree_history, 150000, 3000000) { history(s, c, false); }
PBT(tree_history_slash_names, 40000, 600000) { history(s, c, true); }

#define CHECK_ERROR(expr, msg) do { bool threw_ = false; try { expr; } catch(conduit::Error &) { threw_ = true; } CHECK(threw_, msg << ": no error"); } while(0)
// ---- iterators as cursors: any sequence of moves, copies and arithmetic
template<class IT, class N> static void cursor(Source &s, pbt::Ctx &c, N &n, const M &m)
{
    index_t k = (index_t)m.kids.size(), pos = 0; IT it = n.children(); int steps = (int)s.range(1, 12);
    if(s.chance(1, 3)) { pos = (index_t)s.draw(k); if(s.coin()) { IT x(n, pos); it = x; } else { IT x(&n, pos); it = x; } }
    auto at = [&](index_t i) { return &n.child(i); };
    for(int q = 0; q < steps; q++)
    {
        CHECK_EQ(it.has_next(), pos < k, "has_next at " << pos << " of " << k); CHECK_EQ(it.has_previous(), pos > 1, "has_previous at " << pos); CHECK_EQ(it.index(), pos - 1, "index");
        if(pos > 0) { CHECK(&it.node() == at(pos - 1), "node() at " << pos); CHECK_EQ(it.name(), m.obj() ? m.kids[pos - 1].first : std::to_string(pos - 1), "name() at " << pos); }
        int op = (int)s.range(0, 8); c.desc << op << " ";
        switch(op)
        {
            case 0: case 1: if(pos < k) { CHECK(&it.next() == at(pos), "next() at " << pos); pos++; } else CHECK_ERROR(it.next(), "next() at the end"); break;
            case 2: if(pos < k) { CHECK(&it.peek_next() == at(pos), "peek_next() at " << pos); } else CHECK_ERROR(it.peek_next(), "peek_next() at the end"); break;
            case 3: case 4: if(pos > 1) { pos--; CHECK(&it.previous() == at(pos - 1), "previous() at " << pos); } else { CHECK_ERROR(it.previous(), "previous() at the front"); CHECK_ERROR(it.peek_previous(), "peek_previous() at the front"); } break;
            case 5: it.to_front(); pos = 0; break;
            case 6: it.to_back(); pos = k; break;
            case 7: { IT x(it); if(pos < k) x.next(); IT y; y = it; if(pos > 1) y.previous(); CHECK_EQ(it.index(), pos - 1, "moving a copy moved the original"); if(s.coin()) { y = it; it = y; } else { IT z(it); it = z; } break; }
            default: { index_t j = pos; for(auto b = it.begin(); b != it.end(); ++b, ++j) CHECK(&*b == at(j), "begin()..end() at " << j); CHECK_EQ(j, k, "begin()..end() count"); const IT &ci = it; j = pos; for(auto b = ci.begin(); b != ci.end(); b++, ++j) CHECK(&*b == at(j), "const begin()..end() at " << j); CHECK_EQ(j, k, "const begin()..end() count"); }
        }
    }
}
template<class CI, class N> static void arithmetic(Source &s, pbt::Ctx &c, N &n, const M &m)
{
    index_t k = (index_t)m.kids.size(), pos = (index_t)s.draw(k); CI it(&n, pos); int steps = (int)s.range(1, 10);
    for(int q = 0; q < steps; q++)
    {
        index_t to = (index_t)s.draw(k), d = to - pos; int op = (int)s.range(0, 8); c.desc << op << ">" << to << " "; CI was = it;
        switch(op)
        {
            case 0: CHECK(&(it += d) == &it, "+="); break; case 1: CHECK(&(it -= -d) == &it, "-="); break;
            case 2: { CI x = it + d; CHECK(it == was, "it + n moved it"); it = x; break; } case 3: { CI x = it - (-d); CHECK(it == was, "it - n moved it"); it = x; break; } case 4: { CI x = d + it; CHECK(it == was, "n + it moved it"); it = x; break; }
            case 5: to = pos; if(pos < k) { to = pos + 1; CHECK(it++ == was, "it++ value"); } break; case 6: to = pos; if(pos > 0) { to = pos - 1; CHECK(it-- == was, "it-- value"); } break;
            case 7: to = pos; if(pos < k) { to = pos + 1; CHECK(&++it == &it, "++it"); } break; default: to = pos; if(pos > 0) { to = pos - 1; CHECK(&--it == &it, "--it"); }
        }
        pos = to; CHECK_EQ(it.get_index(), pos, "index"); CHECK(it.get_parent() == &n, "parent");
        CI o(&n, (index_t)s.draw(k)); index_t oi = o.get_index(); CHECK_EQ(it - o, pos - oi, "difference"); CHECK_EQ(it == o, pos == oi, "=="); CHECK_EQ(it != o, pos != oi, "!="); CHECK_EQ(it < o, pos < oi, "<"); CHECK_EQ(it <= o, pos <= oi, "<="); CHECK_EQ(it > o, pos > oi, ">"); CHECK_EQ(it >= o, pos >= oi, ">=");
        if(k) { index_t j = (index_t)s.draw(k - 1); CHECK(&it[j - pos] == &n.child(j), "[]"); }
        if(pos < k) { CHECK(&*it == &n.child(pos), "*"); CHECK(it->dtype().id() == m.kids[pos].second.id, "->"); CHECK_EQ(it.name(), m.obj() ? m.kids[pos].first : std::to_string(pos), "name()"); }
    }
}
PBT(iterators, 30000, 400000)
{
    GenOpts g; M m; m = s.chance(1, 3) ? M::List() : M::Obj(); int k = (int)s.range(0, 6);
    for(int i = 0; i < k; i++) { std::string nm; if(m.obj()) { nm = gen_name(s, g); if(m.find(nm) >= 0) continue; } m.kids.push_back(std::make_pair(nm, gen_leaf(s, g))); }
    Node n; build_plain(n, m); const Node &cn = n; c.nontrivial(m.kids.size() > 1); c.desc << m.kids.size() << " children: ";
    switch(s.range(0, 3)) { case 0: cursor<conduit::NodeIterator>(s, c, n, m); break; case 1: cursor<conduit::NodeConstIterator>(s, c, cn, m); break; case 2: arithmetic<conduit::NodeChildIterator>(s, c, n, m); break; default: arithmetic<conduit::NodeConstChildIterator>(s, c, cn, m); }
    { conduit::NodeIterator a = n.children(); if(m.kids.size()) a.next(); conduit::NodeConstIterator b; b = a; CHECK_EQ(b.index(), a.index(), "const iterator from iterator"); CHECK_EQ(b.has_next(), a.has_next(), "const iterator from iterator"); conduit::NodeConstIterator d(a); CHECK_EQ(d.index(), a.index(), "const iterator built from iterator"); conduit::NodeChildIterator x(&n, (index_t)m.kids.size()); conduit::NodeConstChildIterator y(x); CHECK(y.get_parent() == &n && y.get_index() == x.get_index(), "const child iterator from iterator"); }
    CHECK_NODE(n, m, "iterating changed the tree");
}
PBT_MAIN()

// C04: compaction, serialization and binary files keep every value and pack it as described.
#include "model.hpp"
#include "pbt_main.hpp"
#include <fstream>
#include <unistd.h>
using namespace model; using namespace conduit;

// the bytes of all leaves in order, each element in the byte order the node stores it in
static void concat(const Node &n, std::vector<uint8> &o)
{
    const DataType &d = n.dtype();
    if(d.is_object() || d.is_list()) { for(index_t i = 0; i < n.number_of_children(); i++) concat(n.child(i), o); return; }
    if(d.is_empty()) return;
    for(index_t i = 0; i < d.number_of_elements(); i++) { const unsigned char *p = ele_addr(n, i); o.insert(o.end(), p, p + d.element_bytes()); }
}
// the schema of n, packed
static void packed(const Node &src, const Node &n, index_t &off)
{
    const DataType &a = src.dtype(), &b = n.dtype();
    CHECK_EQ(a.id(), b.id(), "type");
    if(a.is_object() || a.is_list()) { CHECK_EQ(src.number_of_children(), n.number_of_children(), ""); for(index_t i = 0; i < n.number_of_children(); i++) packed(src.child(i), n.child(i), off); return; }
    if(a.is_empty()) return;
    CHECK(b.number_of_elements() == a.number_of_elements() && b.stride() == ebytes((int)a.id()) && b.element_bytes() == ebytes((int)a.id()) && b.offset() == off
        && b.is_big_endian() == a.is_big_endian(), "packed leaf " << b.to_json(0, 0, "", "") << " expected offset " << off << " of " << a.to_json(0, 0, "", ""));
    off += b.bytes_compact();
}
static std::vector<uint8> slurp(const std::string &f)
{ std::ifstream i(f.c_str(), std::ios::binary); return std::vector<uint8>((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void scribble(Node &n)
{
    if(n.dtype().is_object() || n.dtype().is_list()) { for(index_t i = 0; i < n.number_of_children(); i++) scribble(n.child(i)); return; }
    if(n.dtype().is_empty()) return;
    for(index_t i = 0; i < n.dtype().number_of_elements(); i++) memset(const_cast<unsigned char *>(ele_addr(n, i)), 0x5a, n.dtype().element_bytes());
}
static void dirty(Source &s, Node &n) { switch(s.range(0, 3)) { case 1: n["old/x"] = 3; break; case 2: n.append() = "s"; break; case 3: n.set(std::vector<double>(5, 1.0)); break; } }
struct Gen { M m; Arena a; Node n; };
static void gen(Source &s, pbt::Ctx &c, Gen &g, bool odd_names)
{
    GenOpts o; o.odd_names = odd_names; g.m = gen_tree(s, o);
    build(s, g.n, g.m, s.chance(3, 4) ? &g.a : NULL, true);
    if(c.want_desc) c.desc << g.m.str_() << " layout " << g.n.schema().to_json(0, 0, "", "");
    c.nontrivial(g.m.leaves() >= 2);
}

PBT(compact_in_memory, 80000, 600000)
{
    quiet(); Gen g; gen(s, c, g, true); Node &n = g.n; const M &m = g.m;
    std::vector<uint8> want; concat(n, want);
    CHECK_EQ(n.total_bytes_compact(), (index_t)want.size(), "total_bytes_compact");
    Node d; dirty(s, d); n.compact_to(d);
    CHECK_NODE(d, m, "compact_to"); check_views(d, m, NULL, "");
    index_t off = 0; packed(n, d, off);
    CHECK(d.is_compact() && d.schema().is_compact(), "compact_to is compact"); CHECK_EQ(d.total_strided_bytes(), (index_t)want.size(), "size");
    Schema cs; n.schema().compact_to(cs); CHECK(d.schema().equals(cs), "the node has the schema Schema::compact_to gives");
    CHECK(n.is_compact() == (n.total_strided_bytes() == n.total_bytes_compact()), "is_compact");
    if(!want.empty())
    {
        CHECK(d.is_contiguous(), "compact_to is contiguous"); const uint8 *p = (const uint8 *)d.contiguous_data_ptr();
        CHECK(p && memcmp(p, want.data(), want.size()) == 0, "the packed bytes");
        CHECK_EQ(d.total_bytes_allocated(), (index_t)want.size(), "one allocation of the packed size"); CHECK_EQ(d.total_bytes_mmaped(), (index_t)0, "");
        Node inf; d.info(inf); CHECK(inf["total_bytes_compact"].to_index_t() == (index_t)want.size() && inf["total_strided_bytes"].to_index_t() == (index_t)want.size()
            && inf["total_bytes_allocated"].to_index_t() == (index_t)want.size() && inf["total_bytes_mmaped"].to_index_t() == 0, "info " << inf.to_json());
    }
    // serialize
    std::vector<uint8> ser(3, 7); n.serialize(ser); CHECK(ser == want, "serialize(vector): " << ser.size() << " bytes, expected " << want.size());
    std::vector<uint8> ser2; d.serialize(ser2); CHECK(ser2 == want, "serialize of the compacted node");
    { Node e; dirty(s, e); e.set(cs, ser.data()); CHECK_NODE(e, m, "set(schema, serialized bytes)"); Node x; dirty(s, x); x.set_external(cs, ser.data()); CHECK_NODE(x, m, "set_external(schema, serialized bytes)"); }
    // the copies are independent
    scribble(n); CHECK_NODE(d, m, "compact_to result changed with its source"); CHECK(ser == want, "serialized bytes changed");
    g.a.check_gaps("compact/serialize");
}
PBT(compact_twice_and_subtrees, 30000, 200000)
{
    quiet(); Gen g; gen(s, c, g, true); Node &n = g.n; const M &m = g.m;
    Node d, e; n.compact_to(d); d.compact_to(e); CHECK_NODE(e, m, "compacting twice"); CHECK(e.schema().equals(d.schema()), "compacting twice");
    // any subtree compacts to the same as the subtree of the model
    std::function<void(const Node &, const Node &, const M &)> w = [&](const Node &a, const Node &b, const M &q) {
        Node x; a.compact_to(x); CHECK_NODE(x, q, "subtree compact_to"); Node y; b.compact_to(y); CHECK_NODE(y, q, "subtree of a compacted tree"); CHECK(x.schema().equals(y.schema()), "same packing");
        std::vector<uint8> v1, v2, v3; a.serialize(v1); b.serialize(v2); concat(a, v3); CHECK(v1 == v3 && v2 == v3, "subtree bytes");
        for(size_t i = 0; i < q.kids.size(); i++) if(s.coin()) w(a.child((index_t)i), b.child((index_t)i), q.kids[i].second); };
    w(n, d, m);
    // writing through the compacted tree changes exactly that leaf
    Node p; n.compact_to(p); M pm = m; std::vector<std::pair<Node *, M *> > lv;
    std::function<void(Node &, M &)> col = [&](Node &a, M &q) { if(q.num() && !q.v.empty() && !a.dtype().is_big_endian()) lv.push_back({&a, &q}); for(size_t i = 0; i < q.kids.size(); i++) col(a.child((index_t)i), q.kids[i].second); };
    col(p, pm);
    if(!lv.empty()) { auto t = lv[s.draw(lv.size() - 1)]; for(auto &v : t.second->v) v = gen_val(s, t.second->id); by_type(t.second->id, SetPtr(*t.first, *t.second)); CHECK_NODE(p, pm, "write into a compacted tree"); CHECK_NODE(n, m, "write into the compacted copy changed the source"); }
}
PBT(binary_files, 8000, 100000)
{
    quiet(); Gen g; gen(s, c, g, true); Node &n = g.n; M m = g.m;
    bool amb = false; std::function<void(const M &)> f = [&](const M &q) { for(auto &k : q.kids) { amb |= q.obj() && k.first == "dtype"; f(k.second); } }; f(m); if(amb) throw pbt::Discard();
    std::vector<uint8> want; concat(n, want);
    std::string base = c.scratch + "/b" + (s.coin() ? ".conduit_bin" : "");
    if(s.coin()) n.save(base, "conduit_bin"); else n.save(base);
    CHECK(slurp(base) == want, "saved bytes"); CHECK_NODE(n, m, "save changed the node");
    { Node d; dirty(s, d); if(s.coin()) d.load(base, "conduit_bin"); else d.load(base); CHECK_NODE(d, m, "load"); check_views(d, m, NULL, ""); }
    Schema cs; n.schema().compact_to(cs);
    { Node d; dirty(s, d); d.load(base, cs); CHECK_NODE(d, m, "load(file, schema)"); Schema ls; ls.load(base + "_json"); CHECK(ls.total_bytes_compact() == cs.total_bytes_compact(), "saved schema"); }
    std::string sf = c.scratch + "/ser"; n.serialize(sf); CHECK(slurp(sf) == want, "serialize(file)");
    { std::ofstream o(sf.c_str(), std::ios::binary); o << "ab"; n.serialize(o); o.close(); std::vector<uint8> v = slurp(sf); CHECK(v.size() == want.size() + 2 && std::equal(want.begin(), want.end(), v.begin() + 2), "serialize(stream)"); }
    if(!want.empty())
    {
        { Node d; dirty(s, d); if(s.coin()) d.mmap(base); else d.mmap(base, cs); CHECK_NODE(d, m, "mmap"); check_views(d, m, NULL, "");
          CHECK_EQ(d.total_bytes_mmaped(), (index_t)want.size(), "total_bytes_mmaped");
          Node cp(d); scribble(d); CHECK_NODE(cp, m, "copy of a mapped node changed with it"); }
        // writes through a mapping reach the file
        std::vector<uint8> v = slurp(base); CHECK(v == std::vector<uint8>(want.size(), 0x5a), "mapped writes reach the file");
        // a file that is too short is an error
        if(s.chance(1, 4)) { CHECK(truncate(base.c_str(), (off_t)s.range(0, (int64_t)want.size() - 1)) == 0, ""); bool err = false; Node d; try { d.load(base, "conduit_bin"); } catch(const conduit::Error &) { err = true; } CHECK(err, "loading a truncated file was not reported"); c.label("truncated"); }
    }
    if(s.chance(1, 8)) { bool err = false; Node d; try { d.load(c.scratch + "/no_such", "conduit_bin"); } catch(const conduit::Error &) { err = true; } CHECK(err, "loading a missing file was not reported"); }
}
// leaves placed in one buffer: contiguity is exactly adjacency in order
PBT(contiguity, 50000, 300000)
{
    quiet(); GenOpts o; o.zero_len = false; o.empties = false; o.strings = false; M m = gen_tree(s, o);
    std::vector<M *> lv; std::function<void(M &)> col = [&](M &q) { if(q.leaf()) lv.push_back(&q); for(auto &k : q.kids) col(k.second); }; col(m);
    if(lv.empty()) throw pbt::Discard();
    std::vector<index_t> at(lv.size()), str(lv.size()), sz(lv.size()); index_t cur = s.range(0, 2) * 8; bool cont = true; int breaks = (int)s.range(0, 3);
    for(size_t i = 0; i < lv.size(); i++)
    {
        if(i && breaks == 1 && s.chance(1, 4)) { cur += s.range(1, 3); cont = false; }
        int eb = ebytes(lv[i]->id); str[i] = s.chance(1, 5) ? eb * 2 : eb; sz[i] = str[i] * ((index_t)lv[i]->v.size() - 1) + eb; at[i] = cur; cur += sz[i];
    }
    if(breaks == 2 && lv.size() >= 2) { std::swap(at[0], at[lv.size() - 1]); cont = lv.size() < 2; }   // out of order (may overlap, never adjacent in order)
    if(breaks == 2 && lv.size() >= 2) { cont = true; for(size_t i = 1; i < lv.size(); i++) cont &= at[i] == at[i - 1] + sz[i - 1]; index_t hi = 0; for(size_t i = 0; i < lv.size(); i++) hi = std::max(hi, at[i] + sz[i]); cur = hi; }
    std::vector<unsigned char> mem((size_t)cur + 1);
    size_t li = 0; Node n; bool useoff = s.coin();
    std::function<void(Node &, M &)> bl = [&](Node &x, M &q) {
        if(q.obj()) { x.set(DataType::object()); for(auto &k : q.kids) bl(x.add_child(k.first), k.second); } else if(q.list()) { x.set(DataType::list()); for(auto &k : q.kids) bl(x.append(), k.second); }
        else { int eb = ebytes(q.id); index_t k = (index_t)q.v.size(); if(useoff) x.set_external(DataType(q.id, k, at[li], str[li], eb, Endianness::DEFAULT_ID), mem.data()); else x.set_external(DataType(q.id, k, 0, str[li], eb, Endianness::DEFAULT_ID), mem.data() + at[li]); li++; } };
    bl(n, m);
    if(c.want_desc) { c.desc << m.str_() << " at"; for(auto a : at) c.desc << " " << a; }
    c.nontrivial(lv.size() >= 2); c.label(cont ? "contiguous" : "scattered");
    CHECK_EQ(n.is_contiguous(), cont, "is_contiguous"); CHECK(n.contiguous_data_ptr() == (cont ? mem.data() + at[0] : NULL), "contiguous_data_ptr");
    CHECK_EQ(n.contiguous_with((void *)(mem.data() + at[0])), cont, "contiguous_with(start)"); CHECK(!n.contiguous_with((void *)(mem.data() + at[0] + 1)), "contiguous_with(other address)"); CHECK(!n.contiguous_with((void *)NULL), "contiguous_with(NULL)");
    Node after; after.set_external(DataType::uint8(1), mem.data() + at.back() + sz.back()); CHECK_EQ(after.contiguous_with(n), cont, "contiguous_with(node)"); CHECK(!n.contiguous_with(after), "order matters");
}
PBT(lists_of, 24000, 150000)
{
    quiet(); GenOpts o; o.odd_strings = false; M m = gen_tree(s, o); std::unique_ptr<Arena> ar(new Arena); Node proto; build(s, proto, m, s.coin() ? ar.get() : NULL, true);
    index_t k = s.range(0, 5); Schema cs; proto.schema().compact_to(cs); index_t eb = cs.total_bytes_compact();
    if(c.want_desc) c.desc << k << " of " << m.str_();
    c.nontrivial(k >= 2 && m.leaves() >= 1);
    Node n; dirty(s, n); n.list_of(proto.schema(), k);
    CHECK(n.dtype().is_list() && n.number_of_children() == k, "list_of count"); std::vector<uint8> b; proto.serialize(b);
    for(index_t i = 0; i < k; i++) { CHECK(n.child(i).schema().equals(cs), "list_of entry schema"); CHECK(n.child(i).parent() == &n, "parent"); }
    if(eb > 0 && k > 0) { CHECK(n.is_contiguous(), "list_of is one contiguous block"); CHECK_EQ(n.total_bytes_allocated(), k * eb, "list_of allocation"); uint8 *p = (uint8 *)n.contiguous_data_ptr(); for(index_t i = 0; i < k; i++) memcpy(p + i * eb, b.data(), eb);
        for(index_t i = 0; i < k; i++) CHECK_NODE(n.child(i), m, "list_of entry " << i); }
    if(m.leaf()) { Node q; dirty(s, q); q.list_of(proto.dtype(), k); CHECK_EQ(q.number_of_children(), k, "list_of(dtype)"); for(index_t i = 0; i < k; i++) CHECK(q.child(i).schema().equals(cs), "list_of(dtype)"); }
    // external: entries are views of the caller's memory
    std::vector<uint8> mem; for(index_t i = 0; i < k; i++) mem.insert(mem.end(), b.begin(), b.end());
    std::unique_ptr<uint8[]> blk(new uint8[mem.size() ? mem.size() : 1]); memcpy(blk.get(), mem.data(), mem.size());
    { Node x; dirty(s, x); x.list_of_external(blk.get(), proto.schema(), k); M want = M::List(); for(index_t i = 0; i < k; i++) want.kids.push_back({"", m}); CHECK_NODE(x, want, "list_of_external"); check_views(x, want, NULL, "");
      if(k && eb) { CHECK(x.contiguous_data_ptr() == blk.get(), "list_of_external refers to the caller's memory"); scribble(x); for(size_t i = 0; i < mem.size(); i++) CHECK(blk[i] == 0x5a, "writes reach the caller's memory"); } }
}
PBT_MAIN()

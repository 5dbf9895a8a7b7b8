// C09: the C API does what the C++ API does.
#include "pbt_main.hpp"
#include "model.hpp"
#include "conduit.h"
#include "conduit_cpp_to_c.hpp"
using namespace model; using namespace conduit;

static M val_m(int id, std::vector<uint64_t> v) { M m; m.id = id; m.v = v; return m; }
template<class T> static int id_of()
{ bool f = std::is_floating_point<T>::value, sg = std::is_signed<T>::value; switch(sizeof(T)) { case 1: return sg ? DataType::INT8_ID : DataType::UINT8_ID; case 2: return sg ? DataType::INT16_ID : DataType::UINT16_ID; case 4: return f ? DataType::FLOAT32_ID : sg ? DataType::INT32_ID : DataType::UINT32_ID; default: return f ? DataType::FLOAT64_ID : sg ? DataType::INT64_ID : DataType::UINT64_ID; } }
template<class T> struct Fn
{
    void (*set)(conduit_node *, T); void (*setp)(conduit_node *, T *, conduit_index_t);
    void (*setd)(conduit_node *, T *, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t);
    void (*pset)(conduit_node *, const char *, T); void (*psetp)(conduit_node *, const char *, T *, conduit_index_t);
    void (*psetd)(conduit_node *, const char *, T *, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t);
    void (*ext)(conduit_node *, T *, conduit_index_t); void (*extd)(conduit_node *, T *, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t);
    void (*pext)(conduit_node *, const char *, T *, conduit_index_t); void (*pextd)(conduit_node *, const char *, T *, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t, conduit_index_t);
    T (*as)(conduit_node *); T *(*asp)(conduit_node *); T (*pas)(conduit_node *, const char *); T *(*pasp)(conduit_node *, const char *);
};
#define FN(N, T) Fn<T>{ conduit_node_set_##N, conduit_node_set_##N##_ptr, conduit_node_set_##N##_ptr_detailed, conduit_node_set_path_##N, conduit_node_set_path_##N##_ptr, conduit_node_set_path_##N##_ptr_detailed, \
    conduit_node_set_external_##N##_ptr, conduit_node_set_external_##N##_ptr_detailed, conduit_node_set_path_external_##N##_ptr, conduit_node_set_path_external_##N##_ptr_detailed, \
    conduit_node_as_##N, conduit_node_as_##N##_ptr, conduit_node_fetch_path_as_##N, conduit_node_fetch_path_as_##N##_ptr }
struct CN { conduit_node *n; CN() : n(conduit_node_create()) {} ~CN() { conduit_node_destroy(n); } operator conduit_node *() { return n; } Node &cpp() { return *cpp_node(n); } };

template<class T> static void typed(Source &s, pbt::Ctx &c, const Fn<T> &f, const char *name, bool is_char)
{
    int id = id_of<T>(), eb = sizeof(T); index_t n = s.range(1, 6); M m; m.id = id; for(index_t i = 0; i < n; i++) m.v.push_back(gen_val(s, id));
    int how = (int)s.range(0, 9); bool detailed = how == 2 || how == 5 || how == 7 || how == 9, ext = how >= 6, path = how == 3 || how == 4 || how == 5 || how >= 8;
    if(how == 0 || how == 3) { n = 1; m.v.resize(1); }
    index_t off = detailed && s.coin() ? eb * s.range(0, 3) : 0, stride = detailed && s.coin() ? eb * s.range(1, 3) : eb; bool big = detailed && ext && s.chance(1, 4); index_t en = big ? Endianness::BIG_ID : s.coin() ? Endianness::DEFAULT_ID : Endianness::LITTLE_ID;
    if(c.want_desc) c.desc << name << " entry " << how << " off " << off << " stride " << stride << " " << m.str_();
    c.nontrivial(n >= 2);
    size_t nb = (size_t)(off + stride * (n - 1) + eb); std::unique_ptr<unsigned char[]> b(new unsigned char[nb]); for(size_t i = 0; i < nb; i++) b[i] = Arena::pat(i);
    for(index_t i = 0; i < n; i++) write_raw(&b[off + i * stride], eb, big, m.v[i]);
    T *p = (T *)b.get(); const char *pt = "a/b"; CN cn; if(s.coin()) { cn.cpp()["a/b"] = "old"; cn.cpp()["z"] = 1; }
    switch(how)
    {
        case 0: f.set(cn, p[0]); break; case 1: f.setp(cn, p, n); break; case 2: f.setd(cn, p, n, off, stride, eb, en); break;
        case 3: f.pset(cn, pt, p[0]); break; case 4: f.psetp(cn, pt, p, n); break; case 5: f.psetd(cn, pt, p, n, off, stride, eb, en); break;
        case 6: f.ext(cn, p, n); break; case 7: f.extd(cn, p, n, off, stride, eb, en); break; case 8: f.pext(cn, pt, p, n); break; default: f.pextd(cn, pt, p, n, off, stride, eb, en); break;
    }
    Node &l = path ? cn.cpp()["a/b"] : cn.cpp();
    if(is_char && l.dtype().is_string()) { return; }      // plain char arrays are strings
    CHECK_NODE(l, m, "value set by the C API (" << name << " " << how << ")");
    CHECK_EQ(l.is_data_external(), ext, "external");
    if(ext) CHECK((unsigned char *)l.element_ptr(0) == b.get() + off && (n < 2 || (unsigned char *)l.element_ptr(1) == b.get() + off + stride), "describes other memory");
    if(big) return;
    conduit_node *lc = path ? conduit_node_fetch(cn, pt) : cn.n;
    T v = f.as(lc); CHECK(memcmp(&v, &m.v[0], sizeof(T)) == 0, "as_" << name << " value"); CHECK((void *)f.asp(lc) == l.element_ptr(0), "as_" << name << "_ptr");
    if(path) { T w = f.pas(cn, pt); CHECK(memcmp(&w, &m.v[0], sizeof(T)) == 0, "fetch_path_as_" << name); CHECK((void *)f.pasp(cn, pt) == l.element_ptr(0), "fetch_path_as_" << name << "_ptr"); CHECK(conduit_node_fetch_path_data_ptr(cn, pt) == l.data_ptr(), "fetch_path_data_ptr"); index_t e = (index_t)s.draw(n - 1); CHECK(conduit_node_fetch_path_element_ptr(cn, pt, e) == l.element_ptr(e), "fetch_path_element_ptr"); }
    index_t e = (index_t)s.draw(n - 1); CHECK(conduit_node_element_ptr(lc, e) == l.element_ptr(e) && conduit_node_data_ptr(lc) == l.data_ptr(), "element_ptr");
}
PBT(typed_entry_points, 60000, 2000000)
{
    quiet();
    switch(s.range(0, 23))
    {
#define CASE(i, N, T) case i: typed<T>(s, c, FN(N, T), #N, false); break;
        CASE(0, int8, int8) CASE(1, int16, int16) CASE(2, int32, int32) CASE(3, int64, int64) CASE(4, uint8, uint8) CASE(5, uint16, uint16) CASE(6, uint32, uint32) CASE(7, uint64, uint64)
        CASE(8, float32, float32) CASE(9, float64, float64) case 10: typed<char>(s, c, FN(char, char), "char", true); break; CASE(11, short, short) CASE(12, int, int) CASE(13, long, long) CASE(14, signed_char, signed char)
        CASE(15, signed_short, signed short) CASE(16, signed_int, signed int) CASE(17, signed_long, signed long) CASE(18, unsigned_char, unsigned char) CASE(19, unsigned_short, unsigned short)
        CASE(20, unsigned_int, unsigned int) CASE(21, unsigned_long, unsigned long) CASE(22, float, float) CASE(23, double, double)
    }
}
static std::string own(char *p) { std::string r(p ? p : "<null>"); free(p); return r; }
PBT(strings, 15000, 400000)
{
    quiet(); GenOpts g; std::string t = gen_string(s, g); std::vector<char> b(t.begin(), t.end()); b.push_back(0); int how = (int)s.range(0, 3); CN cn; if(s.coin()) cn.cpp()["a"] = 4; c.nontrivial(t.size() >= 2);
    if(c.want_desc) c.desc << how << " " << pbt::json_str(t);
    switch(how) { case 0: conduit_node_set_char8_str(cn, t.c_str()); break; case 1: conduit_node_set_path_char8_str(cn, "p/q", t.c_str()); break; case 2: conduit_node_set_external_char8_str(cn, b.data()); break; default: conduit_node_set_path_external_char8_str(cn, "p/q", b.data()); }
    bool path = how % 2; Node &l = path ? cn.cpp()["p/q"] : cn.cpp(); CHECK_NODE(l, M::String(t), "string"); CHECK_EQ(l.is_data_external(), how >= 2, "external");
    CHECK_EQ(std::string(path ? conduit_node_fetch_path_as_char8_str(cn, "p/q") : conduit_node_as_char8_str(cn)), t, "as_char8_str");
    if(how >= 2) CHECK((path ? conduit_node_fetch_path_as_char8_str(cn, "p/q") : conduit_node_as_char8_str(cn)) == b.data(), "other memory");
    else { std::fill(b.begin(), b.end(), 'x'); CHECK_NODE(l, M::String(t), "copy"); }
}
static void check_dtype(const conduit_datatype *d, const DataType &k)
{
    CHECK_EQ((int)conduit_datatype_id(d), (int)k.id(), "datatype id"); char *nm = conduit_datatype_name(d); std::string q(nm); conduit_datatype_name_destroy(nm); CHECK_EQ(q, k.name(), "datatype name");
    CHECK_EQ(conduit_datatype_number_of_elements(d), k.number_of_elements(), "number_of_elements"); CHECK_EQ(conduit_datatype_offset(d), k.offset(), "offset"); CHECK_EQ(conduit_datatype_stride(d), k.stride(), "stride");
    CHECK_EQ(conduit_datatype_element_bytes(d), k.element_bytes(), "element_bytes"); CHECK_EQ(conduit_datatype_endianness(d), k.endianness(), "endianness");
    if(k.number_of_elements() > 1 && k.is_number()) CHECK_EQ(conduit_datatype_element_index(d, 1), k.element_index(1), "element_index");
#define IS(x) CHECK_EQ(conduit_datatype_is_##x(d) != 0, k.is_##x(), "is_" #x);
    IS(empty) IS(object) IS(list) IS(number) IS(floating_point) IS(integer) IS(signed_integer) IS(unsigned_integer) IS(int8) IS(int16) IS(int32) IS(int64) IS(uint8) IS(uint16) IS(uint32) IS(uint64) IS(float32) IS(float64)
    IS(char) IS(short) IS(int) IS(long) IS(unsigned_char) IS(unsigned_short) IS(unsigned_int) IS(unsigned_long) IS(float) IS(double) IS(string) IS(char8_str) IS(little_endian) IS(big_endian)
    CHECK_EQ(conduit_datatype_endianness_matches_machine(d) != 0, k.endianness_matches_machine(), "endianness_matches_machine");
}
static Node *at(Node &n, const std::vector<int> &t) { Node *r = &n; for(int i : t) r = r->child_ptr(i); return r; }
// the same history on a C tree and on a C++ tree
PBT(history, 15000, 600000)
{
    quiet(); const int NR = 3; CN cs[NR]; Node ns[NR]; M ms[NR]; GenOpts g; g.max_depth = 3; g.max_kids = 4; g.max_ele = 5; g.odd_names = true;
    Arena A;
    for(int i = 0; i < NR; i++) { M m = gen_tree(s, g); build(s, ns[i], m, &A); conduit_node_set_external_node(cs[i], c_node(&ns[i])); Node t; t.set(cs[i].cpp()); conduit_node_set_node(cs[i], c_node(&t)); Node t2(ns[i]); ns[i].set(t2); }
    int nops = (int)s.range(1, 12 + s.sz), eff = 0;
    for(int k = 0; k < nops; k++)
    {
        int i = (int)s.draw(NR - 1), j = (int)s.draw(NR - 1); std::vector<int> tr; Node *n = &ns[i]; while(n->number_of_children() && s.chance(2, 3)) { int q = (int)s.draw(n->number_of_children() - 1); tr.push_back(q); n = n->child_ptr(q); }
        Node *cnp = at(cs[i].cpp(), tr); conduit_node *cn = c_node(cnp); std::string nm = gen_name(s, g), pt = nm + (s.coin() ? "/" + gen_name(s, g) : ""); std::string op; bool obj = n->dtype().is_object(); if(n->number_of_children() && s.coin() && obj) nm = pt = n->child_names()[s.draw(n->number_of_children() - 1)];
        switch(s.range(0, 21))
        {
            case 0: { op = "fetch"; conduit_node *r = conduit_node_fetch(cn, pt.c_str()); Node &x = (*n)[pt]; int64 v = s.range(0, 9); conduit_node_set_int64(r, v); x.set(v); break; }
            case 1: { op = "fetch_existing"; if(!n->has_path(pt)) break; CHECK(cpp_node(conduit_node_fetch_existing(cn, pt.c_str())) == &cnp->fetch_existing(pt), "fetch_existing"); break; }
            case 2: { op = "append"; if(n->dtype().is_object()) break; conduit_node *r = conduit_node_append(cn); n->append() = 2.5; conduit_node_set_double(r, 2.5); break; }
            case 3: { op = "add_child"; conduit_node *r = conduit_node_add_child(cn, nm.c_str()); n->add_child(nm).set((int32)7); conduit_node_set_int32(r, 7); break; }
            case 4: { op = "child"; for(index_t q = 0; q < n->number_of_children(); q++) { CHECK(cpp_node(conduit_node_child(cn, q)) == cnp->child_ptr(q), "child"); CHECK(cpp_node(conduit_node_parent(conduit_node_child(cn, q))) == cnp, "parent"); if(obj) CHECK(cpp_node(conduit_node_child_by_name(cn, n->child_names()[q].c_str())) == cnp->child_ptr(q), "child_by_name"); } break; }
            case 5: { op = "reset"; if(!s.chance(1, 4)) break; conduit_node_reset(cn); n->reset(); break; }
            case 6: { op = "move"; if(i == j) break; conduit_node_move(cs[i], cs[j]); ns[i].move(ns[j]); break; }
            case 7: { op = "swap"; if(i == j) break; conduit_node_swap(cs[i], cs[j]); ns[i].swap(ns[j]); break; }
            case 8: { op = "remove_path"; if(!obj || !n->has_path(pt)) break; conduit_node_remove_path(cn, pt.c_str()); n->remove(pt); break; }
            case 9: { op = "remove_child"; if(!n->number_of_children()) break; index_t q = (index_t)s.draw(n->number_of_children() - 1); conduit_node_remove_child(cn, q); n->remove(q); break; }
            case 10: { op = "remove_child_by_name"; if(!obj || !n->has_child(nm)) break; conduit_node_remove_child_by_name(cn, nm.c_str()); n->remove_child(nm); break; }
            case 11: { op = "rename_child"; std::string to = gen_name(s, g); if(!obj || !n->has_child(nm) || n->has_child(to)) break; conduit_node_rename_child(cn, nm.c_str(), to.c_str()); n->rename_child(nm, to); break; }
            case 12: { op = "update"; if(i == j) break; conduit_node_update(cs[i], cs[j]); ns[i].update(ns[j]); break; }
            case 13: { op = "update_compatible"; if(i == j) break; conduit_node_update_compatible(cs[i], cs[j]); ns[i].update_compatible(ns[j]); break; }
            case 14: { op = "set_path_node"; if(i == j) break; conduit_node_set_path_node(cn, pt.c_str(), cs[j]); n->set_path(pt, ns[j]); break; }
            case 15: { op = "set_node"; if(i == j) break; conduit_node_set_node(cn, cs[j]); n->set(ns[j]); break; }
            case 16: { op = "compact_to"; CN d; Node e; if(ns[i].dtype().is_empty()) break; conduit_node_compact_to(cs[i], d); ns[i].compact_to(e); CHECK_NODE(d.cpp(), model::read(e), "compact_to"); CHECK_EQ(conduit_node_is_contiguous(d) != 0, e.is_contiguous(), "is_contiguous"); break; }
            case 17: { op = "views"; CN v; if(s.coin()) conduit_node_set_external_node(v, cs[i]); else if(s.coin()) { conduit_node_set_path_external_node(v, "q/r", cs[i]); CHECK_NODE(v.cpp()["q/r"], model::read(ns[i]), "set_path_external_node"); break; } else { conduit_node_update_external(v, cs[i]); Node e; e.update_external(ns[i]); CHECK_NODE(v.cpp(), model::read(e), "update_external"); break; } CHECK_NODE(v.cpp(), model::read(ns[i]), "set_external_node"); break; }
            case 18:
            {
                op = "text"; CHECK_EQ(own(conduit_node_to_json(cn)), n->to_json(), "to_json"); CHECK_EQ(own(conduit_node_to_yaml(cn)), n->to_yaml(), "to_yaml"); CHECK_EQ(own(conduit_node_to_string(cn)), n->to_string(), "to_string"); CHECK_EQ(own(conduit_node_to_summary_string(cn)), n->to_summary_string(), "to_summary_string");
                Node o; o["protocol"] = "json"; o["indent"] = (int)s.range(0, 4); if(s.coin()) o["depth"] = 1; if(s.coin()) o["pad"] = "."; o["eoe"] = "\n"; CHECK_EQ(own(conduit_node_to_json_with_options(cn, c_node(&o))), n->to_json(o), "to_json_with_options");
                CHECK_EQ(own(conduit_node_to_string_with_options(cn, c_node(&o))), n->to_string(o), "to_string_with_options"); o["protocol"] = "yaml"; CHECK_EQ(own(conduit_node_to_yaml_with_options(cn, c_node(&o))), n->to_yaml(o), "to_yaml_with_options");
                Node p; p["num_children_threshold"] = (int)s.range(1, 4); p["num_elements_threshold"] = (int)s.range(1, 4); CHECK_EQ(own(conduit_node_to_summary_string_with_options(cn, c_node(&p))), n->to_summary_string(p), "to_summary_string_with_options");
                std::string js = n->to_json("conduit_json"); if(js.empty() || (!n->number_of_children() && !n->dtype().is_number())) break; try { Node e; e.parse(js, "conduit_json"); CN d; conduit_node_parse(d, js.c_str(), "conduit_json"); CHECK_NODE(d.cpp(), model::read(e), "parse"); } catch(conduit::Error &) {} break;
            }
            case 19:
            {
                op = "generate"; Node f; ns[i].compact_to(f); if(ns[i].dtype().is_empty() || !f.is_contiguous() || f.total_bytes_compact() == 0 || f.contiguous_data_ptr() == NULL) break; std::string sc = f.schema().to_json(); CN d, e; Generator q(sc, "conduit_json", f.contiguous_data_ptr()); Node x, y; try { q.walk(x); q.walk_external(y); } catch(conduit::Error &) { break; }
                conduit_node_generate(d, sc.c_str(), "conduit_json", f.contiguous_data_ptr()); conduit_node_generate_external(e, sc.c_str(), "conduit_json", f.contiguous_data_ptr()); CHECK_NODE(d.cpp(), model::read(x), "generate"); CHECK_NODE(e.cpp(), model::read(y), "generate_external");
                std::function<void(const Node &, const Node &)> same = [&](const Node &a, const Node &b) { if(a.dtype().is_number() && a.dtype().number_of_elements()) { CHECK(a.data_ptr() == b.data_ptr(), "generate_external: other memory"); } for(index_t z = 0; z < a.number_of_children(); z++) same(a.child(z), b.child(z)); }; same(e.cpp(), y);
                break;
            }
            case 20:
            {
                op = "diff"; Node ia; CN ib; double eps = s.pick<double>({1e-12, 0.5, 5.0}); CHECK_EQ(conduit_node_diff(cs[i], cs[j], ib, eps) != 0, ns[i].diff(ns[j], ia, eps), "diff"); CHECK_NODE(ib.cpp(), model::read(ia), "diff info"); CHECK_EQ(conduit_node_diff_compatible(cs[i], cs[j], ib, eps) != 0, ns[i].diff_compatible(ns[j], ia, eps), "diff_compatible"); CHECK_NODE(ib.cpp(), model::read(ia), "diff_compatible info");
                CHECK_EQ(conduit_node_compatible(cs[i], cs[j]) != 0, ns[i].compatible(ns[j]), "compatible"); CHECK_EQ(conduit_node_contiguous_with_node(cs[i], cs[j]) != 0, cs[i].cpp().contiguous_with(cs[j].cpp()), "contiguous_with_node"); break;
            }
            default:
            {
                op = "save"; if(ns[i].dtype().is_empty() || !ns[i].number_of_children()) break; std::string f1 = c.scratch + "/c09_a", f2 = c.scratch + "/c09_b"; std::string pr = s.pick<std::string>({"conduit_json", "conduit_bin", "json", "yaml"}); Node x; CN y; try { ns[i].save(f2, pr); x.load(f2, pr); } catch(conduit::Error &) { break; }
                conduit_node_save(cs[i], f1.c_str(), pr.c_str()); conduit_node_load(y, f1.c_str(), pr.c_str()); CHECK_NODE(y.cpp(), model::read(x), "save and load " << pr); break;
            }
        }
        eff += op != "";
        if(c.want_desc) c.desc << op << " ";
        for(int q = 0; q < NR; q++) CHECK_NODE(cs[q].cpp(), model::read(ns[q]), "C tree " << q << " after " << op);
        // queries, on a node of the tree
        tr.clear(); n = &ns[i]; while(n->number_of_children() && s.chance(1, 2)) { int q = (int)s.draw(n->number_of_children() - 1); tr.push_back(q); n = n->child_ptr(q); }
        cnp = at(cs[i].cpp(), tr); cn = c_node(cnp);
        CHECK_EQ(conduit_node_number_of_children(cn), n->number_of_children(), "number_of_children"); CHECK_EQ(conduit_node_number_of_elements(cn), n->dtype().number_of_elements(), "number_of_elements");
        CHECK_EQ(own(conduit_node_name(cn)), n->name(), "name"); CHECK_EQ(own(conduit_node_path(cn)), n->path(), "path"); CHECK_EQ(conduit_node_has_child(cn, nm.c_str()) != 0, n->has_child(nm), "has_child"); CHECK_EQ(conduit_node_has_path(cn, pt.c_str()) != 0, n->has_path(pt), "has_path");
        CHECK_EQ(conduit_node_is_root(cn) != 0, n->is_root(), "is_root"); CHECK_EQ(conduit_node_is_data_external(cn) != 0, cnp->is_data_external(), "is_data_external"); CHECK(cpp_node(conduit_node_parent(cn)) == cnp->parent(), "parent");
        CHECK_EQ(conduit_node_total_strided_bytes(cn), cnp->total_strided_bytes(), "total_strided_bytes"); CHECK_EQ(conduit_node_total_bytes_compact(cn), cnp->total_bytes_compact(), "total_bytes_compact"); CHECK_EQ(conduit_node_total_bytes_allocated(cn), cnp->total_bytes_allocated(), "total_bytes_allocated");
        CHECK_EQ(conduit_node_is_compact(cn) != 0, cnp->is_compact(), "is_compact"); CHECK_EQ(conduit_node_is_contiguous(cn) != 0, cnp->is_contiguous(), "is_contiguous");
        if(cnp->data_ptr()) CHECK_EQ(conduit_node_contiguous_with_address(cn, cnp->data_ptr()) != 0, cnp->contiguous_with(cnp->data_ptr()), "contiguous_with_address");
        check_dtype(conduit_node_dtype(cn), cnp->dtype()); { Node a; CN b; cnp->info(a); conduit_node_info(cn, b); CHECK_NODE(b.cpp(), model::read(a), "info"); }
    }
    c.nontrivial(eff >= 6);
}
PBT(datatypes, 5000, 100000)
{
    quiet(); GenOpts g; M m = gen_leaf(s, g); Arena A; DataType d; unsigned char *p = A.leaf(s, m, d, true, true); Node n; n.set_external(d, p); c.nontrivial(m.v.size() >= 2); check_dtype(conduit_node_dtype(c_node(&n)), n.dtype()); CHECK_EQ(conduit_datatype_sizeof_index_t(), (int)sizeof(index_t), "sizeof_index_t");
}
PBT_MAIN()

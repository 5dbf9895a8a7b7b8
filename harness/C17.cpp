// Blueprint mesh verify decides the protocol, always answers, and indexes describe meshes.
#include "pbt_main.hpp"
#include "domain.hpp"
using namespace vmesh; using namespace model; namespace bm = conduit::blueprint::mesh;

// ------------------------------------------------------------------ the protocol, written down independently
// 0: no, 1: yes, 2: the protocol documents do not say
typedef int T3;
static T3 all(T3 a, T3 b) { return a == 0 || b == 0 ? 0 : a == 2 || b == 2 ? 2 : 1; }
static bool is_obj(const Node &n) { return n.dtype().is_object(); }
static const Node *kid(const Node &n, const std::string &k) { return n.has_child(k) ? &n.child(k) : NULL; }
static bool is_int(const Node *n) { return n && n->dtype().is_integer(); }
static bool is_num(const Node *n) { return n && n->dtype().is_number(); }
static bool is_str(const Node *n) { return n && n->dtype().is_string(); }
static bool is_enum(const Node *n, const std::set<std::string> &v) { return is_str(n) && v.count(n->as_string()); }
static bool full_obj(const Node *n) { return n && is_obj(*n) && n->number_of_children() > 0; }
static const std::set<std::string> SHAPES = {"point", "line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral", "mixed"}, ASSOC = {"vertex", "element"};
static bool logical(const Node *n) { if(!n || !is_int(kid(*n, "i"))) return false; for(auto a : {"j", "k"}) if(n->has_child(a) && !is_int(kid(*n, a))) return false; return true; }
static bool mcarray(const Node *n, bool &zero)
{
    if(!n || !(is_obj(*n) || n->dtype().is_list())) return false;
    index_t len = -1; bool ok = true; for(index_t i = 0; i < n->number_of_children(); i++) { const Node &c = n->child(i); if(!is_num(&c)) { ok = false; continue; } if(c.dtype().number_of_elements() == 0) zero = true; if(len < 0) len = c.dtype().number_of_elements(); else if(len != c.dtype().number_of_elements()) ok = false; }
    return ok;
}
static T3 s_coordset(const Node &n, std::string only = "")
{
    const Node *t = kid(n, "type"); if(!is_enum(t, {"uniform", "rectilinear", "explicit"})) return 0; std::string ty = t->as_string(); if(!only.empty() && ty != only) return 0;
    if(ty == "uniform")
    {
        if(!full_obj(kid(n, "dims")) || !logical(kid(n, "dims"))) return 0; const Node *o = kid(n, "origin"), *sp = kid(n, "spacing");
        for(auto a : {"x", "y", "z", "r", "theta", "phi"}) { if(o && o->has_child(a) && !is_num(kid(*o, a))) return 0; std::string d = std::string("d") + a; if(sp && sp->has_child(d) && !is_num(kid(*sp, d))) return 0; }
        return (o && !full_obj(o)) || (sp && !full_obj(sp)) ? 2 : 1;
    }
    const Node *v = kid(n, "values"); if(!v || !(is_obj(*v) || v->dtype().is_list())) return 0;
    if(ty == "rectilinear") { if(v->number_of_children() == 0) return 0; for(index_t i = 0; i < v->number_of_children(); i++) if(!is_num(&v->child(i))) return 0; return 1; }
    bool zero = false; bool ok = mcarray(v, zero); if(v->number_of_children() == 0) return 2; if(zero) { for(index_t i = 0; i < v->number_of_children(); i++) if(!is_num(&v->child(i))) return 0; return 2; } return ok;
}
static bool o2m(const Node &n)
{
    if(!is_obj(n)) return false; bool data = false;
    for(index_t i = 0; i < n.number_of_children(); i++) { const Node &c = n.child(i); std::string k = c.name(); if(k == "sizes" || k == "offsets" || k == "indices") { if(!is_int(&c)) return false; } else if(is_num(&c)) data = true; }
    const Node *a = kid(n, "sizes"), *b = kid(n, "offsets"); if((a != NULL) != (b != NULL)) return false; if(a && a->dtype().number_of_elements() != b->dtype().number_of_elements()) return false;
    return data;
}
static T3 poly(const Node &e, const Node *sub)
{
    const Node *sh = kid(e, "shape"); if(!is_str(sh)) return 1; std::string x = sh->as_string(); if(x != "polygonal" && x != "polyhedral") return 1; if(!o2m(e)) return 0; if(x == "polygonal") return 1;
    return sub && is_obj(*sub) && is_enum(kid(*sub, "shape"), {"polygonal"}) && is_int(kid(*sub, "connectivity")) && o2m(*sub);
}
static T3 mixed_part(const Node &e)
{
    if(!is_enum(kid(e, "shape"), SHAPES) || !full_obj(kid(e, "shape_map")) || !is_int(kid(e, "shapes"))) return 0; std::set<int64> vals; T3 r = 1;
    const Node &sm = *kid(e, "shape_map"); for(index_t i = 0; i < sm.number_of_children(); i++) { const Node &c = sm.child(i); if(!SHAPES.count(c.name()) || !is_int(&c)) return 0; if(c.dtype().number_of_elements() != 1) { r = 2; continue; } int64 v = c.to_int64(); vals.insert(v); if(v < -2147483647 || v > 2147483647) r = 2; }
    if(r == 2) return o2m(e) ? 2 : 0; int64_accessor a = kid(e, "shapes")->as_int64_accessor(); for(index_t i = 0; i < a.number_of_elements(); i++) { if(a[i] < -2147483647 || a[i] > 2147483647) r = 2; else if(!vals.count(a[i])) return 0; }
    return o2m(e) ? r : 0;
}
static T3 s_topo(const Node &n, std::string only = "")
{
    if(!is_enum(kid(n, "type"), {"points", "uniform", "rectilinear", "structured", "unstructured"}) || !is_str(kid(n, "coordset"))) return 0; if(only.empty() && n.has_child("grid_function") && !is_str(kid(n, "grid_function"))) return 0;
    std::string ty = kid(n, "type")->as_string(); if(!only.empty() && ty != only) return 0; if(ty != "structured" && ty != "unstructured") return 1;
    const Node *e = kid(n, "elements"), *sub = kid(n, "subelements"); if(!full_obj(e)) return 0;
    if(ty == "structured") return full_obj(kid(*e, "dims")) && logical(kid(*e, "dims"));
    if(e->has_child("shape"))
    {
        if(!is_enum(kid(*e, "shape"), SHAPES) || !is_int(kid(*e, "connectivity"))) return 0;
        if(kid(*e, "shape")->as_string() == "mixed") { T3 r = mixed_part(*e); if(sub) r = all(r, mixed_part(*sub)); return r; }
        return poly(*e, sub);
    }
    if(e->has_child("element_types")) return 1;
    T3 r = 1; for(index_t i = 0; i < e->number_of_children(); i++) { const Node &c = e->child(i); if(!is_enum(kid(c, "shape"), SHAPES) || !is_int(kid(c, "connectivity"))) return 0; if(sub && !full_obj(sub) && c["shape"].as_string() == "polyhedral") return 0; r = all(r, poly(c, sub ? kid(*sub, c.name()) : NULL)); if(c["shape"].as_string() == "mixed") r = all(r, 2); }
    return r;
}
static T3 s_map(const Node *m) { if(!full_obj(m)) return 0; for(index_t i = 0; i < m->number_of_children(); i++) if(!is_int(&m->child(i))) return 0; return 1; }
static T3 s_matset(const Node &n)
{
    if(!is_str(kid(n, "topology"))) return 0; const Node *v = kid(n, "volume_fractions"), *m = kid(n, "material_map"), *e = kid(n, "element_ids"); if(!v) return 0; bool uni = is_num(v); if(!uni && !full_obj(v)) return 0;
    if(uni) { if(!is_int(kid(n, "material_ids")) || !o2m(n) || !m) return 0; }
    else for(index_t i = 0; i < v->number_of_children(); i++) { const Node &c = v->child(i); if(is_obj(c) ? !o2m(c) : !is_num(&c)) return 0; }
    if(m) { if(!s_map(m)) return 0; if(!uni) for(index_t i = 0; i < m->number_of_children(); i++) if(!v->has_child(m->child(i).name())) return 0; }
    if(e) { if(uni) { if(!is_int(e)) return 0; } else { if(!is_obj(*e)) return 0; std::set<std::string> a, b; for(auto &x : v->child_names()) a.insert(x); for(auto &x : e->child_names()) b.insert(x); if(a != b) return 0; for(index_t i = 0; i < e->number_of_children(); i++) if(!is_int(&e->child(i))) return 0; } }
    return 1;
}
// arrays nested to a depth of at most `depth`, the same names at each level
static T3 mlarray(const Node *n, int depth)
{
    std::vector<const Node *> lvl(1, n); bool list = false, zero = false;
    for(int d = 0;; d++)
    {
        bool any = false; for(auto x : lvl) { if(x->number_of_children() > 0) any = true; if(x->dtype().is_list()) list = true; }
        if(!any) { for(auto x : lvl) { if(!is_num(x)) return 0; if(x->dtype().number_of_elements() == 0) zero = true; } (void)zero; if(d > depth) return 0; return list && d > 1 ? 2 : 1; }
        std::set<std::string> names; bool first = true; std::vector<const Node *> nx; if(list && d >= 1) return 2;
        for(auto x : lvl) { std::set<std::string> y; if(x->number_of_children() == 0) { if(list) return 2; return 0; } for(auto &k : x->child_names()) y.insert(k); if(first) names = y; else if(y != names) return list ? 2 : 0; first = false; for(index_t i = 0; i < x->number_of_children(); i++) nx.push_back(&x->child(i)); }
        lvl = nx;
    }
}
static T3 s_field(const Node &n)
{
    bool a = n.has_child("association"), b = n.has_child("basis"), t = n.has_child("topology"), v = n.has_child("values"), m = n.has_child("matset"), w = n.has_child("matset_values"); T3 r = 1;
    if((!a && !b) || (!t && !m) || t != v || m != w) return 0; if(a && !is_enum(kid(n, "association"), ASSOC)) return 0; if(b && !is_str(kid(n, "basis"))) return 0;
    if(t) { if(!is_str(kid(n, "topology"))) return 0; r = all(r, mlarray(kid(n, "values"), 1)); } if(m) { if(!is_str(kid(n, "matset"))) return 0; r = all(r, mlarray(kid(n, "matset_values"), 2)); } return r;
}
static T3 s_specset(const Node &n)
{
    if(!is_str(kid(n, "matset")) || !full_obj(kid(n, "matset_values"))) return 0; const Node &v = *kid(n, "matset_values"); index_t len = -1; T3 r = 1; bool zero = false;
    for(index_t i = 0; i < v.number_of_children(); i++) { const Node &c = v.child(i); bool z = false; if(!mcarray(&c, z) && !z) { return 0; } if(z) { zero = true; continue; } if(c.number_of_children() == 0) { r = 2; continue; } index_t l = c.child(0).dtype().number_of_elements(); if(len < 0) len = l; else if(len != l) return 0; }
    return zero ? 2 : r;
}
static bool same_dim(const Node &a, const Node *b) { return !b || (is_obj(*b) && b->number_of_children() == a.number_of_children()); }
static T3 s_adjset(const Node &n)
{
    if(!is_str(kid(n, "topology")) || !is_enum(kid(n, "association"), ASSOC) || !kid(n, "groups") || !is_obj(*kid(n, "groups"))) return 0; const Node &g = *kid(n, "groups");
    for(index_t i = 0; i < g.number_of_children(); i++)
    {
        const Node &c = g.child(i); if(!is_int(kid(c, "neighbors"))) return 0; if(c.has_child("values")) { if(!is_int(kid(c, "values"))) return 0; continue; }
        if(!c.has_child("windows")) continue; const Node &w = *kid(c, "windows"); if(!full_obj(&w)) return 0; if(c.has_child("orientation") && !is_int(kid(c, "orientation"))) return 0;
        for(index_t k = 0; k < w.number_of_children(); k++) { const Node &x = w.child(k); for(auto q : {"origin", "dims", "ratio"}) if(!logical(kid(x, q))) return 0; if(!same_dim(*kid(x, "origin"), kid(x, "dims")) || !same_dim(*kid(x, "origin"), kid(x, "ratio"))) return 0; }
    }
    return 1;
}
static T3 s_nestset(const Node &n)
{
    if(!is_str(kid(n, "topology")) || !is_enum(kid(n, "association"), ASSOC) || !full_obj(kid(n, "windows"))) return 0; const Node &w = *kid(n, "windows");
    for(index_t k = 0; k < w.number_of_children(); k++) { const Node &x = w.child(k); if(!is_int(kid(x, "domain_id")) || !is_enum(kid(x, "domain_type"), {"parent", "child"}) || !logical(kid(x, "ratio"))) return 0; for(auto q : {"origin", "dims"}) if(x.has_child(q) && (!logical(kid(x, q)) || !same_dim(*kid(x, "ratio"), kid(x, q)))) return 0; }
    return 1;
}
// indexes
static T3 i_coordset(const Node &n)
{
    if(!is_enum(kid(n, "type"), {"uniform", "rectilinear", "explicit"}) || !is_str(kid(n, "path")) || !full_obj(kid(n, "coord_system"))) return 0; const Node &c = *kid(n, "coord_system"); if(!is_enum(kid(c, "type"), {"cartesian", "cylindrical", "spherical"}) || !full_obj(kid(c, "axes"))) return 0;
    static const std::map<std::string, std::set<std::string> > AX = {{"cartesian", {"x", "y", "z"}}, {"cylindrical", {"r", "z"}}, {"spherical", {"r", "theta", "phi"}}}; for(auto &a : kid(c, "axes")->child_names()) if(!AX.at(c["type"].as_string()).count(a)) return 0; return 1;
}
static T3 i_topo(const Node &n) { return is_enum(kid(n, "type"), {"points", "uniform", "rectilinear", "structured", "unstructured"}) && is_str(kid(n, "coordset")) && is_str(kid(n, "path")) && (!n.has_child("grid_function") || is_str(kid(n, "grid_function"))); }
static T3 i_matset(const Node &n) { return is_str(kid(n, "topology")) && is_str(kid(n, "path")) && (n.has_child("material_map") ? s_map(kid(n, "material_map")) != 0 : full_obj(kid(n, "materials"))); }
static T3 i_specset(const Node &n) { return is_str(kid(n, "matset")) && is_str(kid(n, "path")) && full_obj(kid(n, "species")); }
static T3 i_field(const Node &n) { bool a = n.has_child("association"), b = n.has_child("basis"), t = n.has_child("topology"), m = n.has_child("matset"); return (a || b) && (t || m) && (!a || is_enum(kid(n, "association"), ASSOC)) && (!b || is_str(kid(n, "basis"))) && (!t || is_str(kid(n, "topology"))) && (!m || is_str(kid(n, "matset"))) && is_int(kid(n, "number_of_components")) && is_str(kid(n, "path")); }
static T3 i_set(const Node &n) { return is_str(kid(n, "topology")) && is_enum(kid(n, "association"), ASSOC) && is_str(kid(n, "path")); }

typedef std::map<std::string, T3> Items;     // "category/name" -> valid
struct Proto { std::string cat; T3 (*own)(const Node &); T3 (*idx)(const Node &); std::vector<std::pair<std::string, std::string> > refs; bool optional_refs; };
static T3 own_coordset(const Node &n) { return s_coordset(n); }
static T3 own_topo(const Node &n) { return s_topo(n); }
static const std::vector<Proto> &protos()
{
    static const std::vector<Proto> P = {{"coordsets", own_coordset, i_coordset, {}, false}, {"topologies", own_topo, i_topo, {{"coordset", "coordsets"}}, false}, {"matsets", s_matset, i_matset, {{"topology", "topologies"}}, false}, {"specsets", s_specset, i_specset, {{"matset", "matsets"}}, false},
        {"fields", s_field, i_field, {{"topology", "topologies"}, {"matset", "matsets"}}, true}, {"adjsets", s_adjset, i_set, {{"topology", "topologies"}}, false}, {"nestsets", s_nestset, i_set, {{"topology", "topologies"}}, false}};
    return P;
}
static bool plain(const std::string &s) { return !s.empty() && s.find('/') == std::string::npos && s != "." && s != ".." && s.find('\0') == std::string::npos; }
static T3 s_domain(const Node &n, Items &it, bool idx)
{
    T3 r = 1; if(!is_obj(n)) return 0;
    auto ref = [&](const Node &c, const std::string &key, const std::string &cat) -> T3 { const Node *k = kid(c, key); if(!is_str(k)) return 0; std::string v = k->as_string(); if(!plain(v)) return 2; const Node *g = kid(n, cat); if(!g || !g->has_child(v)) return 0; if(!is_obj(*g)) return 0; auto f = it.find(cat + "/" + v); return f == it.end() ? 0 : f->second; };
    for(auto &p : protos())
    {
        const Node *g = kid(n, p.cat); if(!g && p.cat != "coordsets" && p.cat != "topologies") continue; if(!full_obj(g)) { r = 0; continue; }
        for(index_t i = 0; i < g->number_of_children(); i++) { const Node &c = g->child(i); T3 v = idx ? p.idx(c) : p.own(c); for(auto &x : p.refs) if(!p.optional_refs || c.has_child(x.first)) v = all(v, ref(c, x.first, x.second)); it[p.cat + "/" + c.name()] = v; r = all(r, v); }
    }
    if(!idx && full_obj(kid(n, "topologies"))) { const Node &g = *kid(n, "topologies"); Items upd; for(index_t i = 0; i < g.number_of_children(); i++) { const Node &c = g.child(i); if(c.has_child("grid_function")) { T3 v = ref(c, "grid_function", "fields"); upd["topologies/" + c.name()] = v; r = all(r, v); } } for(auto &x : upd) it[x.first] = all(it[x.first], x.second); }
    return r;
}
// ------------------------------------------------------------------ mutations
static void collect(Node &n, std::vector<Node *> &out, int depth = 0) { for(index_t i = 0; i < n.number_of_children(); i++) { out.push_back(&n.child(i)); if(depth < 6) collect(n.child(i), out, depth + 1); } }
static const std::vector<std::string> WORDS = {"uniform", "rectilinear", "explicit", "points", "structured", "unstructured", "line", "tri", "quad", "hex", "polygonal", "polyhedral", "mixed", "vertex", "element", "parent", "child", "coords", "topo", "mats", "f0", "f1", "coords1", "topo1", "Uniform", "Vertex", "", "none", "cartesian", "spherical", "true"};
static const std::vector<std::string> KEYS = {"type", "coordset", "values", "dims", "origin", "spacing", "elements", "subelements", "shape", "connectivity", "sizes", "offsets", "indices", "shapes", "shape_map", "topology", "association", "basis", "matset", "matset_values", "volume_fractions", "material_ids", "material_map", "element_ids", "groups", "neighbors", "windows", "orientation", "ratio", "domain_id", "domain_type", "grid_function", "element_types", "i", "j", "k", "x", "dx", "path", "coord_system", "axes", "materials", "species", "number_of_components", "coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets", "state", "mat_a", "air", "hex", "quad", "extra"};
static void simple(Source &s, Node &x)
{
    x.reset();
    switch(s.weighted({3, 3, 3, 1, 1, 1, 2, 1, 1}))
    {
        case 0: x.set((int64)s.range(0, 4)); break; case 1: x.set(std::string(s.pick(WORDS))); break; case 2: x.set((float64)s.range(0, 4)); break; case 3: break; case 4: x.set(DataType::object()); break; case 5: x.set(DataType::list()); break;
        case 6: { std::vector<int32> v((size_t)s.range(0, 5)); for(auto &y : v) y = (int32)s.range(0, 4); x.set(v); break; } case 7: { std::vector<uint64> v((size_t)s.range(1, 3), 1); x.set(v); break; } default: { int k = 1 + (int)s.range(0, 2); for(int i = 0; i < k; i++) x.append().set((float64)i); break; }
    }
}
static void mutate(Source &s, Node &n, std::ostringstream *desc)
{
    std::vector<Node *> v; collect(n, v); if(v.empty()) { simple(s, n[s.pick(KEYS)]); return; } Node *x = v[s.draw(v.size() - 1)]; std::string path = x->path(), op;
    switch(s.weighted({4, 4, 3, 3, 3, 3, 2, 2, 2}))
    {
        case 0: { op = "remove"; Node *p = x->parent(); for(index_t i = 0; i < p->number_of_children(); i++) if(&p->child(i) == x) { p->remove(i); break; } break; }
        case 1: op = "set"; simple(s, *x); break;
        case 2: op = "word"; for(size_t t = 0; t < v.size() && !v[0]->dtype().is_string(); t++) {} { std::vector<Node *> st; for(auto y : v) if(y->dtype().is_string()) st.push_back(y); if(!st.empty()) { x = st[s.draw(st.size() - 1)]; path = x->path(); } } x->reset(); x->set(std::string(s.pick(WORDS))); break;
        case 3: { op = "length"; std::vector<Node *> st; for(auto y : v) if(y->dtype().is_number()) st.push_back(y); if(!st.empty()) { x = st[s.draw(st.size() - 1)]; path = x->path(); M m = model::read(*x); if(s.coin() || m.v.empty()) m.v.push_back(0); else m.v.pop_back(); if(!m.v.empty()) model::build_plain(*x, m); } break; }
        case 4: op = "add"; if(x->dtype().is_object() || x->dtype().is_empty()) simple(s, (*x)[s.pick(KEYS)]); else if(x->parent()->dtype().is_object()) simple(s, (*x->parent())[s.pick(KEYS)]); break;
        case 5: { op = "copy"; Node *y = v[s.draw(v.size() - 1)]; Node t; t.set(*y); x->reset(); x->set(t); break; }
        case 6: { op = "rename"; Node *p = x->parent(); if(p->dtype().is_object()) { std::string nn = s.pick(KEYS); if(!p->has_child(nn)) { std::string on = x->name(); p->rename_child(on, nn); } } break; }
        case 7: { op = "list"; if(x->dtype().is_object()) { Node t; for(index_t i = 0; i < x->number_of_children(); i++) t.append().set(x->child(i)); x->reset(); x->set(t); } break; }
        default: { op = "wrap"; Node t; t.set(*x); x->reset(); (*x)[s.pick(KEYS)].set(t); }
    }
    if(desc) *desc << " " << op << " " << path << ";";
}
static void check_verdict(T3 want, bool got, const char *what) { if(want != 2) CHECK_EQ((int)got, want, what); }
static void check_info(const Node &info, bool got, const char *what) { CHECK(is_obj(info) && info.has_child("valid") && info["valid"].dtype().is_string(), what << ": info has a valid entry"); CHECK_EQ(info["valid"].as_string(), std::string(got ? "true" : "false"), what << ": info/valid agrees with the answer"); }
static void check_items(const Node &info, const Items &it, const char *what)
{ for(auto &x : it) { if(x.second == 2) continue; size_t q = x.first.find('/'); std::string cat = x.first.substr(0, q), nm = x.first.substr(q + 1); if(!plain(nm) || nm == "valid" || nm == "errors" || nm == "info" || nm == "optional") continue; CHECK(info.has_child(cat) && info[cat].has_child(nm) && info[cat][nm].has_child("valid"), what << ": info on " << x.first); CHECK_EQ(info[cat][nm]["valid"].as_string(), std::string(x.second ? "true" : "false"), what << ": info on " << x.first); } }

typedef bool (*VF)(const Node &, Node &);
static void check_parts(Source &s, const Node &n)
{
    static const std::map<std::string, std::pair<std::string, VF> > F = {{"coordsets", {"coordset", bm::coordset::verify}}, {"topologies", {"topology", bm::topology::verify}}, {"matsets", {"matset", bm::matset::verify}}, {"specsets", {"specset", bm::specset::verify}}, {"fields", {"field", bm::field::verify}}, {"adjsets", {"adjset", bm::adjset::verify}}, {"nestsets", {"nestset", bm::nestset::verify}}};
    for(auto &p : protos()) if(const Node *g = kid(n, p.cat)) for(index_t i = 0; i < g->number_of_children(); i++)
    {
        const Node &c = g->child(i); T3 want = p.own(c); Node info; if(s.chance(1, 8)) info["old"] = 1; bool got = F.at(p.cat).second(c, info); check_verdict(want, got, p.cat.c_str()); check_info(info, got, p.cat.c_str());
        Node i2, i3; CHECK_EQ(bm::verify(F.at(p.cat).first, c, i2), got, "mesh::verify(protocol)"); CHECK_EQ(blueprint::verify("mesh/" + F.at(p.cat).first, c, i3), got, "blueprint::verify(protocol)"); check_info(i3, got, "blueprint::verify(protocol)");
        if(p.cat == "coordsets") for(auto &x : std::vector<std::pair<std::string, VF> >{{"uniform", bm::coordset::uniform::verify}, {"rectilinear", bm::coordset::rectilinear::verify}, {"explicit", bm::coordset::_explicit::verify}}) { Node i4; bool g4 = x.second(c, i4); check_verdict(s_coordset(c, x.first), g4, x.first.c_str()); check_info(i4, g4, x.first.c_str()); }
        if(p.cat == "topologies") for(auto &x : std::vector<std::pair<std::string, VF> >{{"points", bm::topology::points::verify}, {"uniform", bm::topology::uniform::verify}, {"rectilinear", bm::topology::rectilinear::verify}, {"structured", bm::topology::structured::verify}, {"unstructured", bm::topology::unstructured::verify}}) { Node i4; bool g4 = x.second(c, i4); check_verdict(s_topo(c, x.first), g4, x.first.c_str()); check_info(i4, g4, x.first.c_str()); }
    }
}
static void check_mesh(Source &s, const Node &n, pbt::Ctx &c)
{
    M before = model::read(n); Node info; if(s.chance(1, 8)) info["old"] = 1; bool got = bm::verify(n, info); T3 want; Items it;
    if(n.has_child("coordsets")) { want = s_domain(n, it, false); }
    else { if(n.dtype().is_empty()) want = 1; else if(!is_obj(n) && !n.dtype().is_list()) want = 0; else { want = 1; for(index_t i = 0; i < n.number_of_children(); i++) { Items x; want = all(want, s_domain(n.child(i), x, false)); } } }
    c.label(want == 1 ? "valid" : want == 0 ? "invalid" : "unspecified"); check_verdict(want, got, "mesh::verify"); check_info(info, got, "mesh::verify"); check_items(info, it, "mesh::verify");
    Node i2; CHECK_EQ(blueprint::verify("mesh", n, i2), got, "blueprint::verify(\"mesh\")"); check_info(i2, got, "blueprint::verify(\"mesh\")");
    check_parts(s, n); CHECK_NODE(n, before, "the verified mesh");
}

// valid meshes are accepted, altered ones judged by the protocol
PBT(verify_mesh_protocol, 20000, 2000000)
{
    Node n; Arena A; DomOpts d; d.g.max_ne = 2; int kind = (int)s.weighted({5, 2, 1}); int nd = 1;
    if(kind == 0) gen_domain(s, n, &A, d); else { nd = 1 + s.len(2); for(int i = 0; i < nd; i++) gen_domain(s, kind == 1 ? n["domain" + std::to_string(i)] : n.append(), &A, d, i); }
    { Node info; CHECK(bm::verify(n, info), "a generated mesh verifies: " << info.to_json().substr(0, 2000) << n.to_json().substr(0, 3000)); CHECK_EQ(bm::is_multi_domain(n), kind != 0, "is_multi_domain"); CHECK_EQ(bm::number_of_domains(n), (index_t)nd, "number_of_domains"); CHECK_EQ(bm::domains((const Node &)n).size(), (size_t)nd, "domains"); }
    check_mesh(s, n, c);
    Node m; m.set(n); int k = (int)s.weighted({1, 5, 3, 2}); std::ostringstream ds; for(int i = 0; i < k; i++) mutate(s, m, c.want_desc ? &ds : NULL);
    if(c.want_desc) c.desc << ds.str() << " -> " << m.to_json(); c.nontrivial(k > 0);
    check_mesh(s, m, c); A.check_gaps("verify");
}
// any tree at all gets an answer
static void garbage(Source &s, Node &n, int depth)
{
    int k = s.len(depth == 0 ? 5 : 4); if(depth > 4 || s.chance(1, 4 + (depth == 0 ? 20 : 0))) { simple(s, n); return; }
    bool list = s.chance(1, 8); for(int i = 0; i < k; i++) { if(list) garbage(s, n.append(), depth + 1); else garbage(s, n[s.pick(KEYS)], depth + 1); }
}
PBT(verify_any_tree, 30000, 3000000)
{
    Node n; garbage(s, n, 0); if(c.want_desc) c.desc << n.to_json(); c.nontrivial(n.number_of_children() >= 2);
    check_mesh(s, n, c); M before = model::read(n);
    for(auto &p : {"coordset", "topology", "matset", "specset", "field", "adjset", "nestset", "index", "coordset/index", "topology/index", "matset/index", "specset/index", "field/index", "adjset/index", "nestset/index", "none", ""}) { Node info; bool r = bm::verify(p, n, info); bool known = *p && std::string(p) != "none"; if(known) check_info(info, r, p); if(!*p || std::string(p) == "none") CHECK(!r, "unknown protocol"); }
    { Node info; check_verdict(own_coordset(n), bm::coordset::verify(n, info), "coordset"); check_verdict(own_topo(n), bm::topology::verify(n, info), "topology"); check_verdict(s_matset(n), bm::matset::verify(n, info), "matset"); check_verdict(s_specset(n), bm::specset::verify(n, info), "specset"); check_verdict(s_field(n), bm::field::verify(n, info), "field"); check_verdict(s_adjset(n), bm::adjset::verify(n, info), "adjset"); check_verdict(s_nestset(n), bm::nestset::verify(n, info), "nestset"); Items it; check_verdict(s_domain(n, it, true), bm::index::verify(n, info), "index"); }
    CHECK_NODE(n, before, "the verified tree");
}

// ------------------------------------------------------------------ index
static std::string join(const std::string &a, const std::string &b) { if(a.empty()) return b; return a[a.size() - 1] == '/' ? a + b : a + "/" + b; }
static void want_index(const Node &n, const std::string &ref, Node &w)
{
    if(n.has_child("state")) { for(auto k : {"cycle", "time"}) if(n["state"].has_child(k)) w["state"][k].set(n["state"][k]); w["state/path"] = join(ref, "state"); }
    auto P = [&](const char *cat, const std::string &nm) { return join(join(ref, cat), nm); };
    for(auto &nm : n["coordsets"].child_names())
    {
        const Node &c = n["coordsets"][nm]; Node &o = w["coordsets"][nm]; o["type"] = c["type"].as_string(); std::vector<std::string> ax;
        if(c["type"].as_string() == "uniform") { if(c.has_child("origin")) ax = c["origin"].child_names(); else if(c.has_child("spacing")) for(auto &x : c["spacing"].child_names()) ax.push_back(x.substr(1)); else { static const char *X[3] = {"x", "y", "z"}; for(index_t i = 0; i < c["dims"].number_of_children(); i++) ax.push_back(X[i]); } } else ax = c["values"].child_names();
        for(auto &a : ax) o["coord_system/axes"][a]; std::set<std::string> A(ax.begin(), ax.end()); o["coord_system/type"] = A.count("theta") || A.count("phi") ? "spherical" : A.count("r") ? "cylindrical" : "cartesian"; o["path"] = P("coordsets", nm);
    }
    for(auto &nm : n["topologies"].child_names()) { const Node &c = n["topologies"][nm]; Node &o = w["topologies"][nm]; o["type"] = c["type"].as_string(); o["coordset"] = c["coordset"].as_string(); o["path"] = P("topologies", nm); if(c.has_child("grid_function")) o["grid_function"] = c["grid_function"].as_string(); }
    if(n.has_child("matsets")) for(auto &nm : n["matsets"].child_names()) { const Node &c = n["matsets"][nm]; Node &o = w["matsets"][nm]; o["topology"] = c["topology"].as_string(); if(c.has_child("material_map")) o["material_map"].set(c["material_map"]); else { int64 i = 0; for(auto &x : c["volume_fractions"].child_names()) o["material_map"][x].set((index_t)i++); } o["path"] = P("matsets", nm); }
    if(n.has_child("specsets")) for(auto &nm : n["specsets"].child_names()) { const Node &c = n["specsets"][nm]; Node &o = w["specsets"][nm]; o["matset"] = c["matset"].as_string(); for(auto &x : c["matset_values"].child_names()) for(auto &y : c["matset_values"][x].child_names()) o["species"][x][y]; o["path"] = P("specsets", nm); }
    if(n.has_child("fields")) for(auto &nm : n["fields"].child_names())
    {
        const Node &c = n["fields"][nm]; Node &o = w["fields"][nm]; index_t nc = 1; if(c.has_child("values")) { if(c["values"].number_of_children()) nc = c["values"].number_of_children(); } else { const Node &m = c["matset_values"]; if(m.number_of_children() && m.child(0).number_of_children()) nc = m.child(0).number_of_children(); } o["number_of_components"] = nc;
        for(auto k : {"topology", "matset", "volume_dependent"}) if(c.has_child(k)) o[k] = c[k].as_string(); if(c.has_child("association")) o["association"] = c["association"].as_string(); else o["basis"] = c["basis"].as_string(); o["path"] = P("fields", nm);
    }
    for(auto cat : {"adjsets", "nestsets"}) if(n.has_child(cat)) for(auto &nm : n[cat].child_names()) { const Node &c = n[cat][nm]; Node &o = w[cat][nm]; o["topology"] = c["topology"].as_string(); o["association"] = c["association"].as_string(); o["path"] = P(cat, nm); }
}
// equal up to child order
static void same_tree(const Node &a, const Node &b, const std::string &at)
{
    CHECK(is_obj(a) == is_obj(b), "index entry " << at << " kind"); if(is_obj(a)) { std::set<std::string> x, y; for(auto &k : a.child_names()) x.insert(k); for(auto &k : b.child_names()) y.insert(k); if(x != y) { std::ostringstream o; for(auto &k : x) if(!y.count(k)) o << " has " << k; for(auto &k : y) if(!x.count(k)) o << " lacks " << k; CHECK(x == y, "index entry " << at << o.str()); } for(auto &k : x) same_tree(a[k], b[k], at + "/" + k); return; }
    CHECK_EQ(a.dtype().is_string(), b.dtype().is_string(), "index entry " << at); CHECK_EQ(a.dtype().is_number(), b.dtype().is_number(), "index entry " << at); if(a.dtype().is_string()) CHECK_EQ(a.as_string(), b.as_string(), "index entry " << at); else if(a.dtype().is_number()) CHECK_EQ(a.to_float64(), b.to_float64(), "index entry " << at);
}
static bool plain_names(const Node &n) { for(auto cat : {"fields"}) if(n.has_child(cat)) for(auto &f : n[cat].child_names()) { const Node &x = n[cat][f]; if(!x.has_child("values") && !x["matset_values"].dtype().is_object()) return true; } return true; }
PBT(index_of_mesh, 20000, 2000000)
{
    Node n; Arena A; DomOpts d; d.g.max_ne = 2; int kind = (int)s.weighted({3, 2, 1}); int nd = 1;
    if(kind == 0) gen_domain(s, n, &A, d); else { nd = 1 + s.len(2); for(int i = 0; i < nd; i++) gen_domain(s, kind == 1 ? n["domain" + std::to_string(i)] : n.append(), &A, d, i); }
    std::string ref = s.pick<std::string>({"", "mesh", "root/mesh/", "a/b"}); int total = nd + (int)s.range(0, 3); (void)plain_names;
    if(c.want_desc) c.desc << "ref '" << ref << "' " << n.to_json(); c.nontrivial(kind > 0 || n.has_child("fields") || n.has_child("matsets"));
    M before = model::read(n); Node idx; if(s.coin()) idx["old"] = 1; bm::generate_index(n, ref, total, idx); CHECK_NODE(n, before, "the indexed mesh");
    Node w; if(kind == 0) want_index(n, ref, w); else for(int i = 0; i < nd; i++) { Node x; want_index(n.child(i), ref, x); 
        // the union; later domains win where both have an entry
        std::function<void(Node &, const Node &)> merge = [&](Node &a, const Node &b) { if(is_obj(b)) { for(auto &k : b.child_names()) merge(a[k], b[k]); } else if(!b.dtype().is_empty()) a.set(b); }; merge(w, x); }
    w["state/number_of_domains"] = total; same_tree(idx, w, "");
    if(kind == 0) { Node info; bool ok = bm::index::verify(idx, info); CHECK(ok, "the index verifies: " << info.to_json().substr(0, 1500)); check_info(info, ok, "index"); Node i2; CHECK(blueprint::verify("mesh/index", idx, i2), "verify mesh/index"); }
    Items it; T3 want = s_domain(idx, it, true); Node info; bool got = bm::index::verify(idx, info); check_verdict(want, got, "index::verify"); 
    Node m; m.set(idx); int k = 1 + (int)s.range(0, 2); std::ostringstream ds; for(int i = 0; i < k; i++) mutate(s, m, c.want_desc ? &ds : NULL); if(c.want_desc) c.desc << " then" << ds.str();
    M mb = model::read(m); Items i3; want = s_domain(m, i3, true); Node f3; got = bm::index::verify(m, f3); check_verdict(want, got, "index::verify"); check_info(f3, got, "index::verify"); check_items(f3, i3, "index::verify"); CHECK_NODE(m, mb, "the verified index");
}
PBT_MAIN()

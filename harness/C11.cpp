// relay::io: what is saved is what is loaded, through the path interface and through handles.
#include "pbt_core.hpp"
#include "pbt_main.hpp"
#include "model.hpp"
#include "h5model.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_handle.hpp"
#include <unistd.h>
using namespace model; using namespace conduit; using h5m::H;

static const std::vector<std::string> PROTOS = {"conduit_bin", "conduit_json", "conduit_base64_json", "json", "yaml", "hdf5", "conduit_silo"};
static const char *ext(const std::string &p) { return p == "hdf5" ? "hdf5" : p == "conduit_silo" ? "silo" : p.c_str(); }

// leaf and tree domains in which a protocol is exact
static M dom_leaf(Source &s, const std::string &p)
{
    if(p == "json" || p == "yaml")
    {
        M m; int k = s.weighted({3, 3, 2});
        if(k == 2) { std::string t = "s"; int n = s.len(10); for(int i = 0; i < n; i++) t += (char)('a' + s.range(0, 25)); return M::String(t); }
        m.id = k == 0 ? DataType::INT64_ID : DataType::FLOAT64_ID;
        int n = 1 + s.len(6);
        for(int i = 0; i < n; i++)
        { int64_t x = s.range(-5000, 5000); m.v.push_back(k == 0 ? (uint64_t)x : f64_bits(((double)x * 2 + 1) / 8.0)); }
        return m;
    }
    if(p == "conduit_json")
    {
        M m; if(s.chance(1, 4)) { GenOpts g; return M::String(gen_string(s, g)); }
        m.id = NUM_IDS[s.draw(9)]; int n = s.len(8);
        for(int i = 0; i < n; i++) { int64_t x = s.range(-100, 100); if(!is_signed(m.id) && !is_float(m.id) && x < 0) x = -x; m.v.push_back(m.id == DataType::FLOAT64_ID ? f64_bits(x / 8.0) : m.id == DataType::FLOAT32_ID ? f32_bits((float)(x / 8.0)) : mask(m.id, (uint64_t)x)); }
        return m;
    }
    GenOpts g; return gen_leaf(s, g);
}
static M dom_tree(Source &s, const std::string &p, int depth, bool root)
{
    bool text = p == "json" || p == "yaml";
    int k = depth >= 4 ? 0 : root ? 1 : s.weighted({6, 4, text ? 0 : 2});
    if(root && !text && s.chance(1, 6)) k = 2;
    if(root && p != "hdf5" && s.chance(1, 12)) k = 0;
    if(k == 0) { if(!text && !root && s.chance(1, 12)) return M(); return dom_leaf(s, p); }
    M m = k == 1 ? M::Obj() : M::List(); int n = s.len(6); if(n == 0 && text) n = 1;
    if(k == 2 && s.chance(1, 8)) n += 8;         // enough entries for two-digit names
    GenOpts g; g.odd_names = !text;
    for(int i = 0; i < n; i++)
    {
        if(k == 1) { std::string nm = gen_name(s, g); if(nm == "." || nm == "dtype" || m.find(nm) >= 0) continue; m.kids.push_back(std::make_pair(nm, dom_tree(s, p, depth + 1, false))); }
        else m.kids.push_back(std::make_pair(std::string(), dom_tree(s, p, depth + 1, false)));
    }
    return m;
}
static std::string fname(pbt::Ctx &c, const std::string &p, int i = 0)
{ std::string f = c.scratch + "/f" + std::to_string(i) + "." + ext(p); unlink(f.c_str()); unlink((f + "_json").c_str()); return f; }

PBT(save_load, 60000, 2500000)
{
    std::string p = s.pick(PROTOS); bool how = s.coin();
    M m = dom_tree(s, p, 0, true); Arena A; Node n; build(s, n, m, &A, p == "conduit_bin" || p == "hdf5");
    if(p == "conduit_silo" && n.total_bytes_compact() == 0) throw pbt::Discard();   // Silo has no empty objects
    c.label(p); c.nontrivial(m.leaves() >= 2); if(c.want_desc) { c.desc << p << " "; m.print(c.desc); }
    std::string f = fname(c, p), sub = p == "conduit_silo" ? ":obj" : "";
    if(p == "hdf5" && s.chance(1, 3)) { sub = ":" + s.pick<std::string>({"/a/b", "x", "q/r/s"}); }
    bool merged = false; Node empty, got; got["old"] = 5;
    if(how) relay::io::save(n, f + sub, p); else if(s.coin()) relay::io::save(n, f + sub, p, empty); else relay::io::save(n, f + sub);
    A.check_gaps("save"); CHECK_NODE(n, m, "the saved node");
    switch(s.range(0, 3))
    {
        case 0: relay::io::load(f + sub, got); break; case 1: relay::io::load(f + sub, p, got); break;
        case 2: relay::io::load(f + sub, p, empty, got); break;
        default: merged = true; got.reset(); relay::io::load_merged(f + sub, got); break;
    }
    M want = m; if(merged && p != "hdf5") { want = M(); h5m::mupdate(want, m); }
    CHECK_NODE(got, want, p << ": load after save");
    if(!sub.empty() && p == "hdf5")
    { Node all; relay::io::load(f, p, all); CHECK_NODE(all.fetch_existing(sub.substr(1)), m, "sub path of the whole file"); }
    unlink(f.c_str()); unlink((f + "_json").c_str());
}

static void sv(Source &s, const Node &n, const std::string &path, const std::string &p) { Node o; switch(s.range(0, 3)) { case 0: relay::io::save(n, path, p); break; case 1: relay::io::save(n, path); break; case 2: relay::io::save(n, path, o); break; default: relay::io::save(n, path, p, o); } }
static void svm(Source &s, const Node &n, const std::string &path, const std::string &p) { Node o; switch(s.range(0, 3)) { case 0: relay::io::save_merged(n, path, p); break; case 1: relay::io::save_merged(n, path); break; case 2: relay::io::save_merged(n, path, o); break; default: relay::io::save_merged(n, path, p, o); } }
static void ldm(Source &s, const std::string &path, const std::string &p, Node &n) { Node o; switch(s.range(0, 2)) { case 0: relay::io::load_merged(path, p, n); break; case 1: relay::io::load_merged(path, n); break; default: relay::io::load_merged(path, p, o, n); } }
// basic protocols: save, save_merged, load, load_merged, with and without sub paths
PBT(path_history, 25000, 1000000)
{
    static const std::vector<std::string> BP = {"conduit_bin", "conduit_base64_json", "conduit_json", "json", "yaml", "hdf5", "conduit_silo"};
    std::string p = s.pick(BP), f = fname(c, p); bool exists = false; M file; H h5;
    bool h5p = p == "hdf5", silo = p == "conduit_silo"; int n = 2 + s.len(10), eff = 0;
    c.label(p); if(c.want_desc) c.desc << p;
    for(int i = 0; i < n; i++)
    {
        M m = dom_tree(s, p, 1, true); if(m.leaf() || (m.list() && (h5p || s.coin()))) { M o = M::Obj(); o.child("v") = m; m = o; }
        if(h5p) h5m::plainify(m);
        std::string sub; if(!silo && s.chance(2, 5)) { sub = s.pick<std::string>({"a", "a/b", "b/c", "n0", "x/y/z", "values"}); if(s.chance(1, 3)) { M l = dom_leaf(s, p); m = l; } }
        if(silo) m.child("some") = M::String("data");
        Node nd; build_plain(nd, m); std::string path = f + (silo ? ":obj" : sub.empty() ? "" : ":" + sub);
        int op = (int)s.range(0, 4); std::string got_err; Node dst; M want;
        if(c.want_desc) { c.desc << "; " << (op <= 1 ? "save_merged " : op == 2 ? "save " : op == 3 ? "load " : "load_merged ") << sub; if(op <= 2) { c.desc << " "; m.print(c.desc); } }
        if(op <= 1)          // save_merged
        {
            if(h5p)
            {
                if(!exists) h5 = H::group();
                M wrapped = m; if(!sub.empty()) wrapped = h5m::wrap(sub, m);
                H after = h5; bool ok = h5m::compat(wrapped, after); if(h5m::roles_clash(wrapped, after)) continue;
                if(ok) h5m::write(wrapped, after);
                try { svm(s, nd, path, p); CHECK(ok, "an incompatible write to HDF5 raised no error"); h5 = after; exists = true; eff++; }
                catch(conduit::Error &e) { CHECK(!ok, "save_merged failed: " << e.message()); exists = true; c.label("refused"); }
            }
            else
            {
                M before = exists ? file : M();
                h5m::mupdate(sub.empty() ? before : h5m::at(before, sub), m); svm(s, nd, path, p); file = before; exists = true; eff++;
            }
        }
        else if(op == 2)     // save
        {
            if(h5p) { H g = H::group(); M wrapped = m; if(!sub.empty()) wrapped = h5m::wrap(sub, m); h5m::write(wrapped, g); sv(s, nd, path, p); h5 = g; exists = true; }
            else if(sub.empty()) { sv(s, nd, path, p); file = m; exists = true; }
            else
            {
                if(!exists) { bool threw = false; try { sv(s, nd, path, p); } catch(conduit::Error &) { threw = true; } CHECK(threw, "save to a sub path of a missing file"); continue; }
                M b = file; h5m::at(b, sub) = m; sv(s, nd, path, p); file = b;
            }
            eff++;
        }
        else if(exists)
        {
            M whole = h5p ? h5m::to_m(h5) : file; M *w = &whole; if(!sub.empty()) w = h5m::find(whole, sub);
            if(!w) { if(h5p) { bool threw = false; try { relay::io::load(path, p, dst); } catch(conduit::Error &) { threw = true; } CHECK(threw, "load of a missing HDF5 path"); } continue; }
            if(op == 3) { dst["left"] = 1; relay::io::load(path, p, dst); want = *w; }
            else
            {
                want = M::Obj(); int k = (int)s.range(0, 2);
                for(int j = 0; j < k; j++) { std::string nm = s.pick<std::string>({"keep", "a", "values", "b", "n0"}); want.child(nm) = M::String("old"); }
                if(w->leaf() || (w->list() && !w->kids.empty()) || !(w->leaf() || w->list() || w->obj())) want = M();
                if(w->list() && w->kids.empty()) continue;
                build_plain(dst, want); h5m::mupdate(want, *w, h5p); ldm(s, path, p, dst);
            }
            CHECK_NODE(dst, want, (op == 3 ? "load" : "load_merged") << " of '" << sub << "'");
        }
        if(exists)
        {
            Node all; relay::io::load(silo ? path : f, p, all); M want2 = h5p ? h5m::to_m(h5) : file;
            CHECK_NODE(all, want2, "the file after operation " << i);
        }
    }
    c.nontrivial(eff >= 3);
    unlink(f.c_str()); unlink((f + "_json").c_str());
}

// handles
PBT(handle_history, 40000, 1500000)
{
    static const std::vector<std::string> HP = {"hdf5", "conduit_bin", "conduit_base64_json", "json", "yaml", "conduit_json"};
    std::string p = HP[s.weighted({6, 2, 2, 1, 1, 1})], f = fname(c, p); bool h5p = p == "hdf5";
    M mem; H h5 = H::group(); bool exists = false, open = false; std::string mode; int eff = 0;
    relay::io::IOHandle h; int n = 3 + s.len(20);
    c.label(p); if(c.want_desc) c.desc << p;
    static const std::vector<std::string> PATHS = {"a", "b", "a/b", "b/c", "x/y", "x/y/z", "values", "n0", "a/b/c"};
    for(int i = 0; i < n; i++)
    {
        int op = open ? s.weighted({6, 4, 3, 2, 2, 2, 1}) : s.weighted({0, 0, 0, 0, 0, 0, 1}) ;
        if(!open)
        {   // closed: every operation is an error; then open
            CHECK(!h.is_open(), "is_open of a closed handle");
            if(s.chance(1, 6)) { bool t = false; Node x; try { h.read(x); } catch(conduit::Error &) { t = true; } CHECK(t, "read from a closed handle"); }
            mode = s.pick<std::string>({"rw", "", "rwa", "w", "r", "wt", "rwt", "wa", "ra"}); Node o; if(!mode.empty()) o["mode"] = mode;
            if(c.want_desc) c.desc << "; open " << mode;
            bool ro = mode == "r" || mode == "ra"; std::string err;
            try { switch(s.range(0, mode.empty() ? 3 : 1)) { case 0: h.open(f, o); break; case 1: h.open(f, p, o); break; case 2: h.open(f); break; default: h.open(f, p); } }
            catch(conduit::Error &e) { err = e.message(); if(err.empty()) err = "?"; }
            if(ro && !exists) { CHECK(!err.empty(), "read-only open of a missing file"); CHECK(!h.is_open(), "is_open after a failed open"); h.close(); continue; }
            CHECK(err.empty(), "open failed: " << err); CHECK(h.is_open(), "is_open"); open = true;
            if(!exists || mode.find('t') != std::string::npos) { mem = M(); h5 = H::group(); }
            exists = true; if(mode.empty()) mode = "rw";
            if(!h5p && mem.id == DataType::EMPTY_ID && mode.find('w') != std::string::npos) { Node nd; nd["first"] = "text"; h.write(nd); mem = M::Obj(); mem.child("first") = M::String("text"); }   // (text files of an empty node are empty)
            continue;
        }
        bool rd = mode.find('r') != std::string::npos, wr = mode.find('w') != std::string::npos;
        std::string path = s.pick(PATHS); M whole = h5p ? h5m::to_m(h5) : mem; M *at = h5m::find(whole, path);
        if(op == 0)      // write
        {
            bool root = s.chance(1, 3); M m = dom_tree(s, p, 2, true); if(root && !m.obj()) { M o = M::Obj(); o.child("v") = m; m = o; }
            if(!root && s.coin()) m = dom_leaf(s, p); if(h5p) h5m::plainify(m);
            Node nd; build_plain(nd, m); if(c.want_desc) { c.desc << "; write " << (root ? "" : path) << " "; m.print(c.desc); }
            if(!wr) { bool t = false; try { if(root) h.write(nd); else h.write(nd, path); } catch(conduit::Error &) { t = true; } CHECK(t, "write through a read-only handle"); continue; }
            M wrapped = root ? m : h5m::wrap(path, m);
            if(h5p)
            {
                H after = h5; if(h5m::roles_clash(wrapped, after)) continue; bool ok = h5m::compat(wrapped, after); if(ok) h5m::write(wrapped, after);
                try { if(root) h.write(nd); else h.write(nd, path); CHECK(ok, "an incompatible write to HDF5 raised no error"); h5 = after; eff++; }
                catch(conduit::Error &e) { CHECK(!ok, "write failed: " << e.message()); c.label("refused"); }
            }
            else { if(root) h.write(nd); else h.write(nd, path); if(root) h5m::mupdate(mem, m); else h5m::mupdate(h5m::at(mem, path), m); eff++; }
        }
        else if(op == 1) // read
        {
            bool root = s.chance(1, 3); Node dst; if(c.want_desc) c.desc << "; read " << (root ? "" : path);
            if(!rd) { bool t = false; try { if(root) h.read(dst); else h.read(path, dst); } catch(conduit::Error &) { t = true; } CHECK(t, "read through a write-only handle"); continue; }
            if(!root && !at) { if(h5p) { bool t = false; try { h.read(path, dst); } catch(conduit::Error &) { t = true; } CHECK(t, "read of a missing HDF5 path"); } else { h.read(path, dst); CHECK(dst.dtype().is_empty(), "read of a missing path"); } continue; }
            M w = root ? whole : *at; M want;
            if(w.obj() && s.coin()) { want = M::Obj(); want.child("keep") = M::String("old"); want.child("a") = M::String("old"); }
            build_plain(dst, want); h5m::mupdate(want, w, h5p);
            if(root) h.read(dst); else h.read(path, dst);
            CHECK_NODE(dst, want, "read of '" << (root ? "" : path) << "'");
        }
        else if(op == 2) // has_path
        {
            if(!rd) { bool t = false; try { h.has_path(path); } catch(conduit::Error &) { t = true; } CHECK(t, "has_path through a write-only handle"); continue; }
            CHECK_EQ(h.has_path(path), at != NULL, "has_path '" << path << "'");
        }
        else if(op == 3) // list_child_names
        {
            bool root = s.chance(1, 3); std::vector<std::string> names, want; names.push_back("junk");
            if(!rd) { bool t = false; try { h.list_child_names(path, names); } catch(conduit::Error &) { t = true; } CHECK(t, "list_child_names through a write-only handle"); continue; }
            M *w = root ? &whole : at; if(w && w->list() && h5p) continue;
            if(w && w->obj()) for(auto &k : w->kids) want.push_back(k.first);
            if(c.want_desc) c.desc << "; list " << (root ? "" : path);
            if(root) h.list_child_names(names); else h.list_child_names(path, names);
            CHECK(names == want, "list_child_names of '" << (root ? "" : path) << "': " << names.size() << " names, expected " << want.size());
        }
        else if(op == 4) // remove
        {
            if(p == "yaml" && at && path.find('/') != std::string::npos && h5m::find(whole, path.substr(0, path.rfind('/')))->kids.size() < 2) continue;   // YAML text has no empty objects
            if(c.want_desc) c.desc << "; remove " << path;
            bool t = false; try { h.remove(path); } catch(conduit::Error &) { t = true; }
            if(!wr) { CHECK(t, "remove through a read-only handle"); continue; }
            CHECK_EQ(t, at == NULL, "remove of '" << path << "'");
            if(at) { if(h5p) h5m::erase(h5, path); else h5m::erase(mem, path); eff++; }
        }
        else             // close, and look at what is on disk
        {
            if(c.want_desc) c.desc << "; close";
            h.close(); open = false; CHECK(!h.is_open(), "is_open after close");
            Node all; relay::io::load(f, p, all); M w = h5p ? h5m::to_m(h5) : mem;
            CHECK_NODE(all, w, "the file after close");
        }
    }
    h.close(); c.nontrivial(eff >= 3);
    if(exists) { Node all; relay::io::load(f, p, all); M w = h5p ? h5m::to_m(h5) : mem; if(h5p || w.id != DataType::EMPTY_ID) CHECK_NODE(all, w, "the file at the end"); }
    unlink(f.c_str()); unlink((f + "_json").c_str());
}
PBT_MAIN()

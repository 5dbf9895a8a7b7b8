// HDF5: partial writes and reads, storage options, files of other writers, the id interface.
#include "pbt_main.hpp"
#include "model.hpp"
#include "h5model.hpp"
#include "conduit_relay.hpp"
#include "conduit_relay_io_hdf5.hpp"
#include "conduit_relay_io_handle.hpp"
#include <unistd.h>
using namespace model; using namespace conduit; using h5m::H; using namespace conduit::relay::io;

static std::string file(pbt::Ctx &c) { std::string f = c.scratch + "/t.hdf5"; unlink(f.c_str()); return f; }
static void set_num(Source &s, Node &o, const char *a, const char *b, int64_t v)
{ std::string nm = s.coin() ? a : b; switch(s.range(0, 3)) { case 0: o[nm] = (int32)v; break; case 1: o[nm] = (int64)v; break; case 2: o[nm] = (uint8)v; break; default: o[nm] = (double)v; } }
static M gen_arr(Source &s, int id, int n) { M m; m.id = id; for(int i = 0; i < n; i++) m.v.push_back(gen_val(s, id)); return m; }

struct Opts { Node n; bool any = false; };
// storage options; returns whether a new leaf of nb bytes becomes extendible
static void gen_storage(Source &s, Node &o)
{
    if(s.coin()) { o["chunking/enabled"] = s.coin() ? "true" : "false"; }
    if(s.coin()) o["chunking/threshold"] = (int)s.pick<int>({0, 16, 64, 2000000});
    if(s.coin()) o["chunking/chunk_size"] = (int)s.pick<int>({8, 24, 64, 1000, 1000000});
    if(s.coin()) { o["chunking/compression/method"] = s.coin() ? "gzip" : "none"; if(s.coin()) o["chunking/compression/level"] = (int)s.range(0, 9); }
    if(s.coin()) { o["compact_storage/enabled"] = s.coin() ? "true" : "false"; if(s.coin()) o["compact_storage/threshold"] = (int)s.pick<int>({0, 20, 1024}); }
    if(s.coin()) o["libver"] = s.pick<std::string>({"default", "v108", "v110", "latest", "none"});
}
struct Defaults
{
    Node n;
    Defaults() { n["libver"] = "default"; n["compact_storage/enabled"] = "true"; n["compact_storage/threshold"] = 1024; n["chunking/enabled"] = "true"; n["chunking/threshold"] = 2000000; n["chunking/chunk_size"] = 1000000; n["chunking/compression/method"] = "gzip"; n["chunking/compression/level"] = 5; apply(); }
    void apply() { hdf5_set_options(n); }
    ~Defaults() { apply(); }
};
static bool unlimited_new(const Node &o, index_t bytes)
{
    bool chunk = true, compact = true; index_t cth = 2000000, pth = 1024;
    if(o.has_path("chunking/enabled")) chunk = o["chunking/enabled"].as_string() != "false";
    if(o.has_path("chunking/threshold")) cth = o["chunking/threshold"].to_int64();
    if(o.has_path("compact_storage/enabled")) compact = o["compact_storage/enabled"].as_string() != "false";
    if(o.has_path("compact_storage/threshold")) pth = o["compact_storage/threshold"].to_int64();
    if(compact && bytes <= pth) return false;
    return chunk && bytes > cth;
}

// any tree, any storage options, written and read through several routes, into nodes of any layout
PBT(storage_options, 7000, 700000)
{
    Defaults def; std::string f = file(c); Node so; gen_storage(s, so);
    GenOpts g; g.max_ele = 40; M m = gen_tree(s, g); if(m.leaf() || m.id == DataType::EMPTY_ID) { M o = M::Obj(); o.child("v") = m; m = o; }
    h5m::plainify(m); Arena A; Node n; build(s, n, m, &A, true);
    c.nontrivial(m.leaves() >= 2); if(c.want_desc) { c.desc << so.to_json() << " "; m.print(c.desc); }
    Node before, after; hdf5_options(before);
    std::string sub = s.coin() ? "" : s.pick<std::string>({"/", "/q", "q/r", "/q/r/", "q"});
    int how = (int)s.range(0, 4);
    if(how == 0) { Node o; o["hdf5"] = so; relay::io::save(n, f + (sub.empty() ? "" : ":" + sub), "hdf5", o); hdf5_options(after); CHECK_NODE(after, model::read(before), "the options after a save with options"); }
    else
    {
        hdf5_set_options(so);
        Node eo; int v = (int)s.range(0, 3); std::string one = f + (sub.empty() ? "" : ":" + sub);
        if(how == 1) { if(v == 0) hdf5_save(n, one); else if(v == 1) hdf5_save(n, one, eo); else if(v == 2) hdf5_save(n, f, sub); else hdf5_save(n, f, sub, eo); }
        else if(how == 2) { if(v == 0) hdf5_write(n, one); else if(v == 1) hdf5_write(n, one, eo); else if(v == 2) hdf5_write(n, f, sub); else hdf5_write(n, f, sub, eo); }
        else if(how == 3) { if(v == 0) hdf5_append(n, one); else if(v == 1) hdf5_append(n, one, eo); else if(v == 2) hdf5_append(n, f, sub); else hdf5_append(n, f, sub, eo); }
        else { hid_t id = hdf5_create_file(f); if(sub.empty()) hdf5_write(n, id); else hdf5_write(n, id, sub); hdf5_close_file(id); }
        def.apply();
    }
    A.check_gaps("hdf5 write"); CHECK_NODE(n, m, "the written node");
    std::string where; for(char ch : sub) where += ch; while(!where.empty() && where[0] == '/') where.erase(0, 1); while(!where.empty() && where.back() == '/') where.pop_back();
    // read
    Node got; M want = where.empty() ? m : h5m::wrap(where, m); bool whole = s.coin();
    Arena B; Node *dst = &got;
    if(s.chance(1, 2)) { M z = whole ? want : m; struct Z { static void go(Source &s, M &x) { for(auto &v : x.v) v = x.str() ? (uint64_t)'z' : gen_val(s, x.id); for(auto &k : x.kids) go(s, k.second); } }; Z::go(s, z); build(s, got, z, &B, false); }
    std::string hp = whole ? "/" : (where.empty() ? std::string("/") : s.coin() ? where : "/" + where);
    switch(s.range(0, 3))
    {
        case 0: hdf5_read(f, hp, *dst); break;
        case 1: hdf5_read(f + ":" + hp, *dst); break;
        case 2: { hid_t id = hdf5_open_file_for_read(f); hdf5_read(id, hp, *dst); hdf5_close_file(id); break; }
        default: { IOHandle h; h.open(f); h.read(hp, *dst); h.close(); }
    }
    B.check_gaps("hdf5 read"); CHECK_NODE(got, whole ? want : m, "read of '" << hp << "'");
    CHECK(is_hdf5_file(f), "is_hdf5_file");
    Node one; one["x"] = 1; hdf5_save(one, f); Node r1; hdf5_read(f, r1); CHECK_NODE(r1, model::read(one), "the file can be written again");
    unlink(f.c_str());
}

// one array on disk: partial and extending writes, strided reads
PBT(slab_history, 8000, 900000)
{
    Defaults def; std::string f = file(c); Node so; bool opt = s.chance(1, 2); if(opt) { gen_storage(s, so); if(so.has_child("libver")) so.remove_child("libver"); if(so.has_child("chunking") && so["chunking"].has_child("enabled")) so["chunking"].remove_child("enabled"); hdf5_set_options(so); }
    int id = NUM_IDS[s.draw(9)]; M cur; bool have = false, unl = false; int n = 2 + s.len(10), writes = 0; bool handle = s.coin();
    std::string path = s.pick<std::string>({"d", "g/d", "g/h/d"}); IOHandle h; if(handle) h.open(f);
    if(c.want_desc) c.desc << idname(id) << " " << path << (handle ? " handle" : "");
    for(int i = 0; i < n; i++)
    {
        int op = have ? s.weighted({4, 4, 1}) : 0;
        if(op == 0)
        {
            M w = gen_arr(s, id, 1 + s.len(9)); index_t off = 0, st = 1; Node o; bool ho = false, hs = false;
            if(s.chance(3, 4)) { ho = true; off = s.range(0, 8); if(have && s.chance(1, 3)) off = (index_t)cur.v.size(); Node x; switch(s.range(0, 2)) { case 0: o["offset"] = (int32)off; break; case 1: o["offset"] = (int64)off; break; default: o["offset"] = (double)off; } }
            if(s.chance(1, 3)) { hs = true; st = s.range(1, 4); o["stride"] = (int64)st; }
            Arena A; Node nd; DataType dt; if(s.coin()) build_plain(nd, w); else { unsigned char *p = A.leaf(s, w, dt, false, true); nd.set_external(dt, p); }
            if(c.want_desc) { c.desc << "; write off " << (ho ? (int)off : -1) << " stride " << (hs ? (int)st : -1) << " "; w.print(c.desc); }
            bool ok = !have || unl || ho || hs || w.v.size() == cur.v.size(); std::string err; 
            try { if(handle) { if(ho || hs) h.write(nd, path, o); else h.write(nd, path); } else if(s.coin()) hdf5_append(nd, f, path, o); else hdf5_append(nd, f + ":" + path, o); }
            catch(conduit::Error &e) { err = e.message(); }
            A.check_gaps("write");
            if(!ok) { CHECK(!err.empty(), "a write of another size without offset or stride raised no error"); }
            else
            {
                CHECK(err.empty(), "write failed: " << err); writes++;
                if(!have) { cur.id = id; cur.v.assign(w.v.size(), 0); unl = ho || unlimited_new(so, (index_t)(w.v.size() * ebytes(id))); have = true; }
                bool plain = !unl && off == 0 && st == 1 && w.v.size() == cur.v.size();
                if(!plain)
                {
                    unl = true; size_t need = off + w.v.size() + (w.v.size() - 1) * (st - 1);
                    if(cur.v.size() < need) cur.v.resize(need, 0);
                }
                for(size_t k = 0; k < w.v.size(); k++) cur.v[off + k * st] = w.v[k];
            }
        }
        else if(op == 1)
        {
            index_t L = (index_t)cur.v.size(), off = 0, st = 1, sz = 0; Node o; bool hz = false;
            if(s.coin()) { off = s.range(0, L - 1); set_num(s, o, "offset", "offsets", off); }
            if(s.coin()) { st = s.range(1, 4); set_num(s, o, "stride", "strides", st); }
            index_t mx = (L - off + st - 1) / st; sz = mx;
            if(s.coin()) { hz = true; sz = s.range(1, mx); set_num(s, o, "size", "sizes", sz); }
            M want; want.id = id; for(index_t k = 0; k < sz; k++) want.v.push_back(cur.v[off + k * st]);
            if(c.want_desc) c.desc << "; read off " << off << " stride " << st << " size " << (hz ? (int)sz : -1);
            Node got; Arena B; if(s.chance(1, 3)) { M z = gen_arr(s, id, (int)sz); DataType dt; unsigned char *p = B.leaf(s, z, dt, false, true); got.set_external(dt, p); }
            else if(s.chance(1, 4)) got.set("something else");
            if(handle) h.read(path, got, o); else if(s.coin()) hdf5_read(f, path, o, got); else hdf5_read(f + ":" + path, o, got);
            B.check_gaps("read"); CHECK_NODE(got, want, "partial read");
            Node info; if(!handle) { int v = (int)s.range(0, 3); Node i2; Node eo; if(v == 0) { hdf5_read_info(f, path, info); hdf5_read_info(f, path, o, i2); } else if(v == 1) { hdf5_read_info(f + ":" + path, info); hdf5_read_info(f + ":" + path, o, i2); } else { hid_t fid = hdf5_open_file_for_read(f); if(v == 2) { hdf5_read_info(fid, path, info); hdf5_read_info(fid, path, o, i2); } else { hid_t did = H5Oopen(fid, path.c_str(), H5P_DEFAULT); hdf5_read_info(did, info); hdf5_read_info(did, o, i2); H5Oclose(did); } hdf5_close_file(fid); }
                CHECK_EQ(info["num_elements"].to_int64(), L, "read_info num_elements"); CHECK_EQ(i2["num_elements"].to_int64(), sz, "read_info with options"); }
        }
        else
        {   // reads beyond the end fail and leave the file usable
            Node o, got; o["offset"] = (int64)cur.v.size() + s.range(1, 3); o["size"] = 1; bool t = false;
            try { if(handle) h.read(path, got, o); else hdf5_read(f, path, o, got); } catch(conduit::Error &) { t = true; }
            CHECK(t, "a read beyond the end of a dataset raised no error");
        }
        if(have && !handle) { Node all; hdf5_read(f, path, all); CHECK_NODE(all, cur, "the dataset"); }
    }
    if(handle) h.close();
    if(have) { Node all; hdf5_read(f, path, all); CHECK_NODE(all, cur, "the dataset at the end"); }
    c.nontrivial(writes >= 2);
    def.apply(); Node one; one["x"] = 1; hdf5_save(one, f); unlink(f.c_str());
}

// datasets made by other writers: N dimensions, big endian, fixed and variable length strings, scalars
PBT(foreign, 8000, 900000)
{
    Defaults def; std::string f = file(c); int kind = s.weighted({6, 1, 1, 1});
    hid_t fid = hdf5_create_file(f); CHECK(fid >= 0, "create");
    if(kind == 0)
    {
        int id = NUM_IDS[s.draw(9)]; bool big = s.coin(); int rank = (int)s.range(1, 4); hsize_t dims[4]; size_t tot = 1;
        for(int d = 0; d < rank; d++) { dims[d] = (hsize_t)s.range(1, 5); tot *= dims[d]; }
        M m = gen_arr(s, id, (int)tot); std::vector<unsigned char> raw(tot * ebytes(id)); for(size_t i = 0; i < tot; i++) write_raw(&raw[i * ebytes(id)], ebytes(id), false, m.v[i]);
        DataType ldt(id, 1, 0, ebytes(id), ebytes(id), Endianness::LITTLE_ID), bdt = ldt; if(big) bdt.set_endianness(Endianness::BIG_ID);
        hid_t mt = conduit_dtype_to_hdf5_dtype(ldt), ft = conduit_dtype_to_hdf5_dtype(bdt);
        bool scalar = rank == 1 && dims[0] == 1 && s.coin(); hid_t sp = scalar ? H5Screate(H5S_SCALAR) : H5Screate_simple(rank, dims, NULL);
        hid_t ds = H5Dcreate2(fid, "d", ft, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, raw.data()); H5Dclose(ds); H5Sclose(sp);
        hdf5_close_file(fid);
        Node all; hdf5_read(f, "d", all); CHECK_NODE(all, m, "whole dataset"); CHECK(all.dtype().endianness_matches_machine(), "endianness of a read node");
        c.nontrivial(rank >= 2 && !scalar);
        if(scalar) { if(c.want_desc) c.desc << "scalar"; unlink(f.c_str()); return; }
        std::vector<int64_t> off(rank, 0), st(rank, 1), sz(rank); Node o;
        bool ho = s.coin(), hs = s.coin(), hz = s.coin();
        for(int d = 0; d < rank; d++)
        {
            if(ho) off[d] = s.range(0, (int64_t)dims[d] - 1); if(hs) st[d] = s.range(1, 3);
            int64_t mx = ((int64_t)dims[d] - off[d] + st[d] - 1) / st[d]; sz[d] = hz ? s.range(1, mx) : mx;
        }
        if(ho) o[s.coin() ? "offset" : "offsets"].set(off); if(hs) o[s.coin() ? "stride" : "strides"].set(st); if(hz) o[s.coin() ? "size" : "sizes"].set(sz);
        if(c.want_desc) { c.desc << idname(id) << (big ? " big" : "") << " dims"; for(int d = 0; d < rank; d++) c.desc << " " << dims[d]; c.desc << " opts " << o.to_json(); }
        M want; want.id = id; std::vector<int64_t> ix(rank, 0);
        while(true)
        {
            size_t lin = 0; for(int d = 0; d < rank; d++) lin = lin * dims[d] + (size_t)(off[d] + ix[d] * st[d]);
            want.v.push_back(m.v[lin]); int d = rank - 1; while(d >= 0 && ++ix[d] == sz[d]) ix[d--] = 0; if(d < 0) break;
        }
        Node got; hdf5_read(f, "d", o, got); CHECK_NODE(got, want, "hyperslab");
        Node info; hdf5_read_info(f, "d", info); CHECK_EQ(info["num_elements"].dtype().number_of_elements(), (index_t)rank, "read_info rank");
        for(int d = 0; d < rank; d++) CHECK_EQ((hsize_t)info["num_elements"].as_uint64_array()[d], dims[d], "read_info dims");
        if(rank >= 2 && s.chance(1, 4))
        {   // writing over it through relay: same number of elements is compatible and is written whole
            M m2 = gen_arr(s, id, (int)tot); Node nd; DataType dt = bdt; std::vector<unsigned char> raw2(tot * ebytes(id)); for(size_t i = 0; i < tot; i++) write_raw(&raw2[i * ebytes(id)], ebytes(id), big, m2.v[i]);
            dt.set_number_of_elements((index_t)tot); nd.set_external(dt, raw2.data()); hdf5_append(nd, f, "d"); Node back; hdf5_read(f, "d", back); CHECK_NODE(back, m2, "written over an N-dimensional dataset");
        }
    }
    else
    {
        std::string t; int L = s.len(12); for(int i = 0; i < L; i++) t += (char)('a' + s.range(0, 25));
        if(c.want_desc) c.desc << "string kind " << kind << " '" << t << "'"; c.nontrivial(L > 2);
        hid_t ty = H5Tcopy(H5T_C_S1), sp = H5Screate(H5S_SCALAR);
        if(kind == 1) H5Tset_size(ty, t.size() + 1 + s.range(0, 3)); else if(kind == 2) H5Tset_size(ty, H5T_VARIABLE); else { H5Tset_size(ty, H5T_VARIABLE); H5Sclose(sp); hsize_t one = 1; sp = H5Screate_simple(1, &one, NULL); }
        hid_t ds = H5Dcreate2(fid, "t", ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if(kind == 1) { std::string b = t; b.resize(H5Tget_size(ty), 0); H5Dwrite(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); } else { const char *q = t.c_str(); H5Dwrite(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, &q); }
        H5Dclose(ds); H5Sclose(sp); H5Tclose(ty); hdf5_close_file(fid);
        Node got; if(s.coin()) got.set("abcdefghijklmnop"); hdf5_read(f, "t", got); CHECK_NODE(got, M::String(t), "string dataset");
    }
    unlink(f.c_str());
}

// trees through open ids: writes, removals, queries
PBT(id_history, 5000, 500000)
{
    Defaults def; std::string f = file(c); hid_t id = hdf5_create_file(f); H h5 = H::group(); int n = 2 + s.len(16), eff = 0;
    static const std::vector<std::string> PATHS = {"a", "b", "a/b", "b/c", "x/y", "values", "n0", "a/b/c"};
    for(int i = 0; i < n; i++)
    {
        std::string path = s.pick(PATHS); M whole = h5m::to_m(h5); M *at = h5m::find(whole, path);
        switch(s.weighted({5, 2, 2, 2, 2, 1}))
        {
            case 0: {
                GenOpts g; g.max_depth = 2; g.empties = s.chance(1, 3); M m = gen_tree(s, g); h5m::plainify(m); bool root = m.obj() && s.chance(1, 3);
                std::string hp = root ? s.pick<std::string>({"", "/"}) : s.coin() ? path : "/" + path; if(!root && s.chance(1, 6)) hp += "/";
                M w = root ? m : h5m::wrap(path, m); if(h5m::roles_clash(w, h5)) break; H after = h5; bool ok = h5m::compat(w, after); if(ok) h5m::write(w, after);
                Arena A; Node nd; build(s, nd, m, &A, false); if(c.want_desc) { c.desc << "; write " << hp << " "; m.print(c.desc); }
                try { if(root && s.coin()) hdf5_write(nd, id); else hdf5_write(nd, id, hp); CHECK(ok, "an incompatible write raised no error"); h5 = after; eff++; }
                catch(conduit::Error &e) { CHECK(!ok, "write failed: " << e.message()); c.label("refused"); }
                A.check_gaps("write"); CHECK_NODE(nd, m, "the written node"); break; }
            case 1: CHECK_EQ(hdf5_has_path(id, path), at != NULL, "has_path " << path); break;
            case 2: { if(c.want_desc) c.desc << "; remove " << path; bool t = false; try { hdf5_remove_path(id, path); } catch(conduit::Error &) { t = true; } CHECK_EQ(t, at == NULL, "remove_path " << path); if(at) { h5m::erase(h5, path); eff++; } break; }
            case 3: { if(!at) break; std::vector<std::string> nm(1, "junk"), want; hdf5_group_list_child_names(id, path, nm); if(at->obj()) for(auto &k : at->kids) want.push_back(k.first); if(at->list()) for(size_t k = 0; k < at->kids.size(); k++) want.push_back(std::to_string(k)); CHECK(nm == want, "child names of " << path); break; }
            case 4: { if(!at) break; Node got; hdf5_read(id, path, got); CHECK_NODE(got, *at, "read " << path); break; }
            default: if(c.want_desc) c.desc << "; reopen"; hdf5_close_file(id); id = hdf5_open_file_for_read_write(f); break;
        }
        Node all; hdf5_read(id, all); CHECK_NODE(all, h5m::to_m(h5), "the file through its id");
    }
    hdf5_close_file(id); Node all; relay::io::load(f, "hdf5", all); CHECK_NODE(all, h5m::to_m(h5), "the file"); c.nontrivial(eff >= 3); unlink(f.c_str());
}
PBT_MAIN()

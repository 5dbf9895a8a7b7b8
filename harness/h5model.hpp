// A model of what an HDF5 file written by relay holds: groups in creation order,
// datasets of one type and extent; and Node::update on value trees.
#ifndef H5MODEL_HPP
#define H5MODEL_HPP
#include "model.hpp"
namespace h5m {
using model::M; using conduit::DataType;
struct H
{
    bool grp = true, list = false, unlimited = false;
    std::vector<std::pair<std::string, H> > kids;
    M leaf;                                 // dataset: its value (an empty M: null dataspace)
    static H group() { return H(); }
    int find(const std::string &n) const { for(size_t i = 0; i < kids.size(); i++) if(kids[i].first == n) return (int)i; return -1; }
};
inline M to_m(const H &h)
{
    if(!h.grp) return h.leaf;
    M m = h.list ? M::List() : M::Obj();
    for(auto &k : h.kids) m.kids.push_back(std::make_pair(h.list ? std::string() : k.first, to_m(k.second)));
    return m;
}
inline size_t count(const M &m) { return m.v.size() + (m.str() ? 1 : 0); }
// would relay accept writing m over h?
inline bool compat(const M &m, const H &h)
{
    if(m.leaf() || !(m.obj() || m.list()))
    {
        if(h.grp) return false;
        if(!h.leaf.leaf()) return !m.leaf();
        if(!m.leaf() || m.id != h.leaf.id) return false;
        return h.unlimited || count(m) == count(h.leaf);
    }
    if(!h.grp) return false;
    for(size_t i = 0; i < m.kids.size(); i++)
    {
        int j = m.obj() ? h.find(m.kids[i].first) : (i < h.kids.size() ? (int)i : -1);
        if(j >= 0 && !compat(m.kids[i].second, h.kids[j].second)) return false;
    }
    return true;
}
// an object written over a list or a list over a non-empty object: outside the domain
inline bool roles_clash(const M &m, const H &h)
{
    if(!(m.obj() || m.list()) || !h.grp) return false;
    if(m.obj() == h.list && !h.kids.empty()) return true;
    for(size_t i = 0; i < m.kids.size(); i++)
    {
        int j = m.obj() ? h.find(m.kids[i].first) : (i < h.kids.size() ? (int)i : -1);
        if(j >= 0 && roles_clash(m.kids[i].second, h.kids[j].second)) return true;
    }
    return false;
}
inline void write(const M &m, H &h)
{
    if(m.obj() || m.list())
    {
        h.grp = true; h.list = m.list();
        for(size_t i = 0; i < m.kids.size(); i++)
        {
            std::string n = m.obj() ? m.kids[i].first : std::to_string(i); int j = h.find(n);
            if(j < 0) { H k; k.grp = m.kids[i].second.obj() || m.kids[i].second.list(); h.kids.push_back(std::make_pair(n, k)); j = (int)h.kids.size() - 1; }
            write(m.kids[i].second, h.kids[j].second);
        }
    }
    else { h.grp = false; h.leaf = m; }
}
inline M wrap(const std::string &path, const M &m)
{
    size_t p = path.find('/'); M o = M::Obj();
    o.child(path.substr(0, p)) = p == std::string::npos ? m : wrap(path.substr(p + 1), m);
    return o;
}
// Node::fetch
inline M &at(M &m, const std::string &path)
{ size_t p = path.find('/'); M &k = m.child(path.substr(0, p)); return p == std::string::npos ? k : at(k, path.substr(p + 1)); }
inline M *find(M &m, const std::string &path)
{
    if(!m.obj()) return NULL; size_t p = path.find('/'); int i = m.find(path.substr(0, p)); if(i < 0) return NULL;
    return p == std::string::npos ? &m.kids[i].second : find(m.kids[i].second, path.substr(p + 1));
}
template<class T> void erase(T &m, const std::string &path)
{
    size_t p = path.find('/'); int i = m.find(path.substr(0, p)); if(i < 0) return;
    if(p == std::string::npos) m.kids.erase(m.kids.begin() + i); else erase(m.kids[i].second, path.substr(p + 1));
}
// HDF5 names that mean something else to HDF5
inline void plainify(M &m)
{
    for(size_t i = 0; i < m.kids.size(); i++)
    {
        std::string n; for(char ch : m.kids[i].first) if(ch != '/') n += ch; if(n == "." || n.empty()) n = "dot"; m.kids[i].first = m.obj() ? n : std::string();
        plainify(m.kids[i].second);
    }
}
// Node::update; the HDF5 reader makes containers and resets where the file holds empty nodes
inline void mupdate(M &dst, const M &src, bool h5 = false)
{
    if(src.obj())
    {
        if(!dst.obj() && (h5 || !src.kids.empty())) dst = M::Obj();
        for(auto &k : src.kids) mupdate(dst.child(k.first), k.second, h5);
    }
    else if(src.list())
    {
        if(!dst.list() && (h5 || !src.kids.empty())) dst = M::List();
        for(size_t i = 0; i < src.kids.size(); i++)
        {
            if(i >= dst.kids.size()) dst.kids.push_back(std::make_pair(std::string(), M()));
            mupdate(dst.kids[i].second, src.kids[i].second, h5);
        }
    }
    else if(src.num())
    {
        if(dst.id == src.id && dst.v.size() >= src.v.size()) { for(size_t i = 0; i < src.v.size(); i++) dst.v[i] = src.v[i]; }
        else dst = src;
    }
    else if(src.str()) dst = src;
    else if(h5) dst = M();
}
}
#endif

// The single-process driver: forks workers, finds a failing case, shrinks it in
// fresh processes, confirms it, writes a result file.
#ifndef PBT_MAIN_HPP
#define PBT_MAIN_HPP
#include "pbt_core.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <ftw.h>

extern "C" const char *__asan_default_options();
extern "C" __attribute__((weak)) const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:handle_abort=1:"
           "handle_segv=1:max_allocation_size_mb=4096:symbolize=1:"
           "detect_odr_violation=0:print_legend=0";
}

namespace pbt {

enum { EX_OK = 0, EX_FAIL = 3, EX_HANG = 77 };
static const int CPU_LIMIT_S = 40;   // CPU seconds for one case (typical: milliseconds)

struct Slot { volatile long cur; volatile long done; volatile long evals; volatile long discards; char msg[6000]; };
struct Shm { volatile int stop; Slot slot[64]; };

struct Opts
{
    uint64_t seed = 1; std::string tier = "quick", out, replay_dir = "/tmp", replay, only, prop = "C00";
    int workers = 8; double scale = 1; double max_wall = 500;
};

inline double now()
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline void on_cpu(int) { const char m[] = "\nCPU limit of the case exceeded (hang)\n";
    if(write(2, m, sizeof(m) - 1)) {} _exit(EX_HANG); }
inline void arm_cpu(int s)
{
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, NULL);
}

inline int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
inline void rm_tree(const std::string &d)
{ if(d.size() > 8 && d.compare(0, 5, "/tmp/") == 0) nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS); }
inline void clean_dir(const std::string &d) { rm_tree(d); mkdir(d.c_str(), 0700); }

// a harness may install per-process set up here
inline std::function<void()> &process_setup() { static std::function<void()> f; return f; }

// run one case in this process
inline void run_case(const Sub &sub, Source &s, Ctx &c)
{
    try { sub.fn(s, c); }
    catch(Fail &) { throw; }
    catch(Discard &) { throw; }
    catch(std::exception &e) { throw Fail(std::string("unexpected exception: ") + e.what()); }
    catch(...) { throw Fail("unexpected exception of unknown type"); }
}

struct Outcome { int kind; std::string msg, desc; };  // 0 ok, 1 fail, 2 crash, 3 hang

inline std::string slurp(const std::string &p, size_t max = 5000)
{
    std::ifstream f(p.c_str()); std::stringstream ss; ss << f.rdbuf(); std::string r = ss.str();
    size_t k = r.find("ERROR: AddressSanitizer");
    if(k != std::string::npos) return r.substr(k, max);
    return r.size() > max ? r.substr(r.size() - max) : r;
}

struct Driver
{
    Opts o; Shm *shm; std::string tmp;
    std::vector<std::pair<int, long> > plan;   // (sub, index)

    uint64_t case_seed(int sub, long i) const
    { return mix(hash_str(subs()[sub].name) ^ mix(o.seed * 0x2545F4914F6CDD1Dull + (uint64_t)i)); }

    void child_env(const std::string &errfile)
    {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2); close(fd);
        fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_cpu; sigaction(SIGPROF, &sa, NULL);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if(process_setup()) process_setup()();
    }

    // run a choice sequence in a fresh process
    Outcome isolated(int sub, const std::vector<uint64_t> *seq, uint64_t seed, bool want_desc,
                     const std::vector<long> *prefix = NULL)
    {
        std::string err = tmp + "/iso.err", dsc = tmp + "/iso.desc";
        unlink(dsc.c_str());
        Slot &sl = shm->slot[63]; sl.msg[0] = 0;
        clean_dir(tmp + "/iso");
        pid_t p = fork();
        if(p == 0)
        {
            child_env(err);
            Ctx c; c.want_desc = want_desc; c.scratch = tmp + "/iso";
            int rc = EX_OK;
            if(prefix) for(long k : *prefix)
            {
                Ctx c0; c0.scratch = c.scratch; clean_dir(c.scratch);
                Source s0(case_seed(plan[k].first, plan[k].second));
                arm_cpu(CPU_LIMIT_S);
                try { run_case(subs()[plan[k].first], s0, c0); } catch(Fail &) {} catch(Discard &) {}
            }
            if(prefix) clean_dir(c.scratch);
            if(want_desc)
            {
                static Ctx *cp; static std::string *dp; cp = &c; dp = &dsc;
                atexit_flush() = [](void) { std::ofstream f(dp->c_str()); f << cp->desc.str(); };
                install_death_hook();
            }
            arm_cpu(CPU_LIMIT_S);
            if(seq) { Source s(*seq); rc = go(sub, s, c, sl); }
            else { Source s(seed); rc = go(sub, s, c, sl); }
            if(want_desc) atexit_flush()();
            _exit(rc);
        }
        int st = 0; waitpid(p, &st, 0);
        Outcome r; r.kind = 0;
        if(WIFEXITED(st) && WEXITSTATUS(st) == EX_OK) r.kind = 0;
        else if(WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL) { r.kind = 1; r.msg = sl.msg; }
        else if(WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG) { r.kind = 3; r.msg = "hang: more than the CPU limit"; }
        else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.kind = 0; r.msg = "killed"; }  // memory: inconclusive
        else { r.kind = 2; r.msg = "crash: " + slurp(err); }
        if(want_desc) r.desc = slurp(dsc, 20000);
        return r;
    }

    int go(int sub, Source &s, Ctx &c, Slot &sl)
    {
        try { run_case(subs()[sub], s, c); return EX_OK; }
        catch(Discard &) { return EX_OK; }
        catch(Fail &f) { strncpy(sl.msg, f.what(), sizeof(sl.msg) - 1); sl.msg[sizeof(sl.msg) - 1] = 0;
                         return EX_FAIL; }
    }

    void worker(int w, long start)
    {
        child_env(tmp + "/w" + std::to_string(w) + ".err");
        Slot &sl = shm->slot[w];
        std::string scratch = tmp + "/w" + std::to_string(w);
        std::map<std::string, std::unordered_set<uint64_t> > distinct;
        std::map<std::string, long> labels, evals, disc;
        std::map<std::string, std::vector<std::string> > samples;
        int rc = EX_OK;
        for(long k = start; k < (long)plan.size() && !shm->stop; k += o.workers)
        {
            const Sub &sub = subs()[plan[k].first];
            sl.cur = k;
            clean_dir(scratch);
            Ctx c; c.scratch = scratch;
            if(w == 0 && samples[sub.name].size() < 3) c.want_desc = true;
            Source s(case_seed(plan[k].first, plan[k].second));
            arm_cpu(CPU_LIMIT_S);
            try
            {
                run_case(sub, s, c);
                sl.evals++; evals[sub.name]++;
                if(c.nontriv)
                {
                    uint64_t h = 0; for(uint64_t v : s.rec) h = mix(h ^ v);
                    distinct[sub.name].insert(h);
                    if(c.want_desc && c.desc.str().size())
                    {
                        std::string d = c.desc.str(); if(d.size() > 1500) d = d.substr(0, 1500) + "...";
                        samples[sub.name].push_back(d);
                    }
                }
                for(auto &l : c.labels) labels[sub.name + ":" + l.first]++;
            }
            catch(Discard &) { sl.discards++; disc[sub.name]++; }
            catch(Fail &f) { strncpy(sl.msg, f.what(), sizeof(sl.msg) - 1); rc = EX_FAIL; break; }
        }
        arm_cpu(0);
        std::ofstream f((tmp + "/w" + std::to_string(w) + "." + std::to_string(start) + ".stat").c_str());
        for(auto &d : distinct) f << "D " << d.first << " " << d.second.size() << "\n";
        for(auto &d : evals) f << "E " << d.first << " " << d.second << "\n";
        for(auto &d : disc) f << "X " << d.first << " " << d.second << "\n";
        for(auto &d : labels) { f << "L " << d.second << " " << d.first << "\n"; }
        for(auto &d : samples) for(auto &x : d.second) f << "S " << d.first << " " << json_str(x) << "\n";
        f.close();
        if(rc == EX_OK) sl.done = 1;
        _exit(rc);
    }

    int main_replay()
    {
        std::ifstream f(o.replay.c_str());
        std::string line, subname; std::vector<uint64_t> seq; std::vector<long> prefix; bool has_prefix = false;
        uint64_t seed = 0; bool has_seed = false;
        while(std::getline(f, line))
        {
            std::istringstream is(line); std::string k; is >> k;
            if(k == "sub") is >> subname;
            else if(k == "choices") { uint64_t v; while(is >> v) seq.push_back(v); }
            else if(k == "runseed") { is >> o.seed; }
            else if(k == "caseseed") { is >> seed; has_seed = true; }
            else if(k == "prefix") { long v; has_prefix = true; while(is >> v) prefix.push_back(v); }
            else if(k == "plan") { std::string t; is >> t; o.tier = t; }
            else if(k == "message") break;
        }
        int sub = -1; for(size_t i = 0; i < subs().size(); i++) if(subs()[i].name == subname) sub = (int)i;
        if(sub < 0) { std::cerr << "no sub-check " << subname << "\n"; return 2; }
        make_plan();
        Outcome r = isolated(sub, has_seed ? NULL : &seq, seed, true, has_prefix ? &prefix : NULL);
        std::cout << "case: " << r.desc << "\n";
        if(r.kind == 0) { std::cout << "replay: passes\n"; return 0; }
        std::cout << "replay: FAILS: " << r.msg << "\n";
        return 1;
    }

    void make_plan()
    {
        plan.clear();
        std::vector<long> n;
        long mx = 0;
        for(auto &s : subs())
        {
            long k = o.tier == "thorough" ? s.thorough : s.quick;
            k = (long)(k * o.scale); if(k < 1) k = 1;
            if(!o.only.empty() && s.name != o.only) k = 0;
            n.push_back(k); mx = std::max(mx, k);
        }
        // interleave the sub-checks evenly, so that a time cut hits them all alike
        std::vector<long> done(n.size(), 0);
        for(long step = 0; step < mx; step++)
            for(size_t j = 0; j < n.size(); j++)
                while(done[j] * mx < n[j] * (step + 1) && done[j] < n[j])
                    plan.push_back(std::make_pair((int)j, done[j]++));
    }

    int run(int argc, char **argv)
    {
        for(int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if(a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
            else if(a == "--tier") o.tier = val();
            else if(a == "--out") o.out = val();
            else if(a == "--replay-dir") o.replay_dir = val();
            else if(a == "--replay") o.replay = val();
            else if(a == "--only") o.only = val();
            else if(a == "--prop") o.prop = val();
            else if(a == "--workers") o.workers = atoi(val().c_str());
            else if(a == "--scale") o.scale = atof(val().c_str());
            else if(a == "--max-wall") o.max_wall = atof(val().c_str());
        }
        if(o.workers < 1) o.workers = 1;
        if(o.workers > 60) o.workers = 60;
        shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        char t[] = "/tmp/vpbt.XXXXXX"; tmp = mkdtemp(t);
        int rc;
        try { rc = o.replay.empty() ? main_run() : main_replay(); }
        catch(std::exception &e) { std::cerr << "driver error: " << e.what() << "\n"; rc = 2; }
        rm_tree(tmp);
        return rc;
    }

    int main_run()
    {
        double t0 = now();
        make_plan();
        std::map<pid_t, int> pids; std::vector<long> wstart(o.workers);
        auto spawn = [&](int w, long start) {
            wstart[w] = start;
            fflush(NULL);
            pid_t p = fork(); if(p == 0) worker(w, start); pids[p] = w; };
        for(int w = 0; w < o.workers; w++) spawn(w, w);
        long fail_k = -1; int fail_w = -1; long unrepro = 0, killed = 0; bool timed_out = false;
        Outcome fail; std::vector<uint64_t> fseq; bool fprefix = false; std::vector<long> prefix;
        bool fixed = false; (void)fixed;
        while(!pids.empty())
        {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if(p <= 0)
            {
                if(now() - t0 > o.max_wall && !shm->stop) { shm->stop = 1; timed_out = true; }
                usleep(20000); continue;
            }
            if(!pids.count(p)) continue;
            int w = pids[p]; pids.erase(p);
            Slot &sl = shm->slot[w];
            if(WIFEXITED(st) && WEXITSTATUS(st) == EX_OK) continue;
            long k = sl.cur;
            if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            {   // out of memory or killed from outside: no verdict on this case
                killed++;
                if(killed < 20 && k + o.workers < (long)plan.size() && !shm->stop) spawn(w, k + o.workers);
                continue;
            }
            if(fail_k >= 0) continue;
            // does it fail again on its own?
            int sub = plan[k].first; uint64_t sd = case_seed(sub, plan[k].second);
            Outcome r; r.kind = 0;
            int again = 0;
            for(int i = 0; i < 3; i++) { Outcome q = isolated(sub, NULL, sd, false); if(q.kind) { again++; r = q; } }
            if(again >= 2) { fail_k = k; fail_w = w; fail = r; shm->stop = 1; continue; }
            // only after the cases this process ran before it?
            std::vector<long> pre; for(long q = wstart[w]; q < k; q += o.workers) pre.push_back(q);
            r = isolated(sub, NULL, sd, false, &pre);
            if(r.kind) { Outcome r2 = isolated(sub, NULL, sd, false, &pre); if(!r2.kind) r.kind = 0; }
            if(r.kind) { fail_k = k; fail_w = w; fail = r; fprefix = true; prefix = pre; shm->stop = 1; continue; }
            unrepro++;
            std::cerr << "unreproduced failure in " << subs()[sub].name << "#" << plan[k].second << ": "
                      << (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL ? std::string(sl.msg)
                          : slurp(tmp + "/w" + std::to_string(w) + ".err", 1500)) << "\n";
            if(k + o.workers < (long)plan.size() && !shm->stop) spawn(w, k + o.workers);
        }
        (void)fail_w;
        // collect
        std::map<std::string, long> D, E, X, L; std::vector<std::pair<std::string, std::string> > S;
        if(DIR *d = opendir(tmp.c_str()))
        {
            while(struct dirent *e = readdir(d))
            {
                std::string n = e->d_name;
                if(n.size() < 5 || n.substr(n.size() - 5) != ".stat") continue;
                std::ifstream f((tmp + "/" + n).c_str()); std::string line;
                while(std::getline(f, line))
                {
                    std::istringstream is(line); std::string k, nm; long v; is >> k;
                    if(k == "D") { is >> nm >> v; D[nm] += v; }
                    else if(k == "E") { is >> nm >> v; E[nm] += v; }
                    else if(k == "X") { is >> nm >> v; X[nm] += v; }
                    else if(k == "L") { is >> v; std::string r; std::getline(is, r); L[r.substr(1)] += v; }
                    else if(k == "S") { is >> nm; std::string r; std::getline(is, r); S.push_back(std::make_pair(nm, r.substr(1))); }
                }
            }
            closedir(d);
        }
        long te = 0, td = 0; for(auto &x : E) te += x.second; for(auto &x : D) td += x.second;
        std::string replay_path, fmsg;
        if(fail_k >= 0)
        {
            int sub = plan[fail_k].first; uint64_t sd = case_seed(sub, plan[fail_k].second);
            mkdir(o.replay_dir.c_str(), 0755);
            char nm[256]; snprintf(nm, sizeof nm, "%s/%s-%s-%llx.replay", o.replay_dir.c_str(), o.prop.c_str(),
                                   subs()[sub].name.c_str(), (unsigned long long)(sd & 0xffffff));
            replay_path = nm;
            std::ofstream rf(nm);
            rf << "prop " << o.prop << "\nsub " << subs()[sub].name << "\n";
            if(fprefix)
            {
                rf << "runseed " << o.seed << "\nplan " << o.tier << "\ncaseseed " << sd << "\nprefix";
                for(long q : prefix) rf << " " << q;
                rf << "\nmessage " << fail.msg << "\n";
                fmsg = fail.msg;
            }
            else
            {
                // find the sequence: the generator is deterministic, so record it in a child
                std::vector<uint64_t> seq = record(sub, sd);
                double ts = now(); long tried = 0;
                double budget = fail.kind == 3 ? 1 : 60;
                auto fails = [&](const std::vector<uint64_t> &v) { tried++; return isolated(sub, &v, 0, false).kind != 0; };
                std::vector<uint64_t> best = seq;
                bool ok = !seq.empty() && fails(seq);
                if(ok) best = shrink(seq, fails, [&]() { return now() - ts > budget || tried > 6000; });
                Outcome r = ok ? isolated(sub, &best, 0, true) : isolated(sub, NULL, sd, true);
                if(ok) { rf << "choices"; for(uint64_t v : best) rf << " " << v; rf << "\n"; }
                else rf << "caseseed " << sd << "\n";
                if(r.kind == 0) r.msg = fail.msg;
                rf << "shrunk_from " << seq.size() << " to " << best.size() << " choices in " << tried << " runs\n";
                rf << "message " << r.msg << "\ncase " << r.desc << "\n";
                fmsg = r.msg;
            }
            rf.close();
        }
        std::ostringstream j;
        j << "{\"evaluations\": " << te << ", \"distinct_nontrivial\": " << td << ", \"planned\": " << plan.size()
          << ", \"timed_out\": " << (timed_out ? "true" : "false") << ", \"unreproduced\": " << unrepro
          << ", \"killed\": " << killed << ", \"wall\": " << now() - t0 << ",\n \"subs\": {";
        bool first = true;
        for(auto &x : E) { j << (first ? "" : ", ") << json_str(x.first) << ": {\"evaluations\": " << x.second
            << ", \"distinct_nontrivial\": " << D[x.first] << ", \"discarded\": " << X[x.first] << "}"; first = false; }
        j << "},\n \"labels\": {"; first = true;
        for(auto &x : L) { j << (first ? "" : ", ") << json_str(x.first) << ": " << x.second; first = false; }
        j << "},\n \"samples\": ["; first = true; std::map<std::string, int> per;
        for(auto &x : S) { if(per[x.first]++ >= 3) continue;
            j << (first ? "" : ", ") << "{\"check\": " << json_str(x.first) << ", \"case\": " << x.second << "}"; first = false; }
        j << "],\n \"violation\": " << (fail_k >= 0 ? "true" : "false") << ", \"replay\": " << json_str(replay_path)
          << ", \"message\": " << json_str(fmsg.substr(0, 3000)) << "}\n";
        if(!o.out.empty()) { std::ofstream f(o.out.c_str()); f << j.str(); }
        else std::cout << j.str();
        return fail_k >= 0 ? 1 : 0;
    }

    // the choice sequence of a seeded case, up to where it fails
    std::vector<uint64_t> record(int sub, uint64_t seed)
    {
        // share a growing buffer with the child so that a crash does not lose it
        static const size_t CAP = 4u << 20;
        uint64_t *buf = (uint64_t *)mmap(NULL, (CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        buf[0] = 0;
        clean_dir(tmp + "/iso");
        pid_t p = fork();
        if(p == 0)
        {
            child_env(tmp + "/iso.err");
            Ctx c; c.scratch = tmp + "/iso";
            static Source *sp; static uint64_t *bp; bp = buf;
            Source s(seed); sp = &s;
            atexit_flush() = [](void) {
                uint64_t n = std::min<uint64_t>(sp->rec.size(), CAP);
                memcpy(bp + 1, sp->rec.data(), n * 8); bp[0] = n; };
            struct sigaction sa; memset(&sa, 0, sizeof sa);
            install_death_hook();
            arm_cpu(CPU_LIMIT_S);
            go(sub, s, c, shm->slot[63]);
            atexit_flush()();
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        std::vector<uint64_t> v(buf + 1, buf + 1 + buf[0]);
        munmap(buf, (CAP + 1) * 8);
        return v;
    }
    typedef void (*Flush)();
    static Flush &atexit_flush() { static Flush f = NULL; return f; }
    static void on_death() { if(atexit_flush()) atexit_flush()(); }
    static void on_sig(int) { on_death(); _exit(98); }
    static void install_death_hook();
};

} // namespace pbt

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void pbt::Driver::install_death_hook()
{
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(&pbt::Driver::on_death);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = &pbt::Driver::on_sig;
    sigaction(SIGPROF, &sa, NULL);
}

#define PBT_MAIN() \
    int main(int argc, char **argv) { pbt::Driver d; return d.run(argc, argv); }
#endif

// Exploration runtime shared by all harnesses.
//
// A harness registers *cases*: deterministic, independently replayable units of
// exhaustive exploration, each with a unique label.  The runtime distributes the
// cases over worker processes, so that a crash, a failed libstdc++ assertion, a
// sanitizer report or a hang of the code under test is attributed to the case
// that caused it, counts what was explored, and re-runs a failing case alone
// before it is reported.
#pragma once
#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf
{

struct Violation { std::string msg; };

inline std::string fmt(char const * f, ...)
{
    char b[4096];
    va_list ap; va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

template<class... A>
[[noreturn]] inline void fail(char const * f, A... a) { throw Violation{fmt(f, a...)}; }

#define CHECK(cond, ...) do { if (!(cond)) ::vf::fail(__VA_ARGS__); } while (0)

struct Case { std::string label; std::function<void()> fn; };
inline std::vector<Case> & cases() { static std::vector<Case> c; return c; }
inline void add(std::string label, std::function<void()> fn) { cases().push_back({std::move(label), std::move(fn)}); }
inline bool & thorough() { static bool t = false; return t; }
template<class T> inline T tiered(T quick, T deep) { return thorough() ? deep : quick; }

constexpr int MAXW = 16, MAXV = 64, MAXC = 64, MAXS = 24;

struct Shared
{
    std::atomic<uint64_t> next, states, transitions, traces, cases_done;
    std::atomic<uint32_t> nviol, nsamples, nctr, lock;
    struct { std::atomic<int64_t> idx; std::atomic<uint64_t> t0; char note[512]; } w[MAXW];
    struct { uint64_t idx; char msg[3000]; } v[MAXV];
    struct { char name[64]; std::atomic<uint64_t> n; } c[MAXC];
    char s[MAXS][600];
};
inline Shared *& sh() { static Shared * s = nullptr; return s; }
inline int & me() { static int w = 0; return w; }

inline uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

// counters -------------------------------------------------------------------
inline void transitions(uint64_t n = 1) { sh()->transitions.fetch_add(n, std::memory_order_relaxed); }
inline void states(uint64_t n = 1) { sh()->states.fetch_add(n, std::memory_order_relaxed); }
inline void traces(uint64_t n = 1) { sh()->traces.fetch_add(n, std::memory_order_relaxed); }
inline void count(char const * name, uint64_t n = 1)
{
    static std::map<std::string, int> ids;
    auto it = ids.find(name);
    if (it == ids.end())
    {
        while (sh()->lock.exchange(1)) { }
        int i = 0, k = sh()->nctr;
        for (; i < k; ++i) { if (!strcmp(sh()->c[i].name, name)) break; }
        if (i == k && k < MAXC) { snprintf(sh()->c[k].name, sizeof sh()->c[k].name, "%s", name); sh()->nctr = k + 1; }
        sh()->lock = 0;
        it = ids.emplace(name, i).first;
    }
    if (it->second < MAXC) sh()->c[it->second].n.fetch_add(n, std::memory_order_relaxed);
}
inline void sample(std::string const & s)
{
    if (sh()->nsamples >= MAXS) return;
    auto i = sh()->nsamples.fetch_add(1);
    if (i < MAXS) snprintf(sh()->s[i], sizeof sh()->s[i], "%s", s.c_str());
}
// what is being executed right now; shown when the process dies
template<class... A> inline void note(char const * f, A... a) { snprintf(sh()->w[me()].note, sizeof sh()->w[me()].note, f, a...); }

// distinct-state sets, counted when they go out of scope
struct Seen
{
    std::unordered_set<std::string> s;
    bool insert(std::string const & k) { return s.insert(k).second; }
    ~Seen() { states(s.size()); }
};

// running ---------------------------------------------------------------------
inline void record(uint64_t idx, std::string const & msg)
{
    auto k = sh()->nviol.fetch_add(1);
    if (k < MAXV) { sh()->v[k].idx = idx; snprintf(sh()->v[k].msg, sizeof sh()->v[k].msg, "%s", msg.c_str()); }
}

inline bool run_case(uint64_t i, std::string & msg)
{
    try { cases()[i].fn(); return true; }
    catch (Violation const & v) { msg = v.msg; }
    catch (std::exception const & e) { msg = std::string("unexpected exception: ") + e.what() + " [" + sh()->w[me()].note + "]"; }
    catch (...) { msg = std::string("unexpected exception [") + sh()->w[me()].note + "]"; }
    return false;
}

inline void worker(int w, int64_t first)
{
    me() = w;
    uint64_t i = first >= 0 ? (uint64_t)first : sh()->next.fetch_add(1);
    for (; i < cases().size() && sh()->nviol < 24; i = sh()->next.fetch_add(1))
    {
        sh()->w[w].idx = (int64_t)i; sh()->w[w].note[0] = 0; sh()->w[w].t0 = now_ms();
        std::string msg;
        if (!run_case(i, msg)) record(i, msg);
        if (getenv("VF_TIMES")) if (FILE * f = fopen(getenv("VF_TIMES"), "a")) { fprintf(f, "%6d ms %s\n", (int)(now_ms() - sh()->w[w].t0), cases()[i].label.c_str()); fclose(f); }
        if (i % (cases().size() / 10 + 1) == 0) sample("case explored: " + cases()[i].label + (sh()->w[w].note[0] ? " [last: " + std::string(sh()->w[w].note) + "]" : ""));
        sh()->cases_done.fetch_add(1, std::memory_order_relaxed);
        if (first >= 0) break;
    }
    sh()->w[w].idx = -1;
    fflush(stdout);
    _exit(0);
}

inline std::string tail_of(std::string const & path)
{
    std::string r;
    if (FILE * f = fopen(path.c_str(), "r"))
    {
        char b[2001]; size_t n = fread(b, 1, 2000, f); b[n] = 0; r = b; fclose(f);
    }
    for (auto & c : r) if (c == '\n' || c == '\r' || (unsigned char)c < 32) c = ' ';
    return r;
}

inline std::string esc(std::string const & s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}

int run_main(int argc, char ** argv, void (*setup)());

} // namespace vf

#ifndef VF_NO_MAIN
namespace vf
{
inline pid_t spawn(int w, int64_t first, std::string const & errdir)
{
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0)
    {
        std::string e = errdir + "/w" + std::to_string(w) + ".err";
        int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        worker(w, first);
    }
    return p;
}

// --out FILE --dir SCRATCH [--thorough] [--jobs N] [--limit SECONDS] [--case LABEL]
inline int main_impl(int argc, char ** argv, void (*setup)())
{
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 1 << 24);
    std::string out, dir = ".", only;
    int jobs = 8; uint64_t limit = 150; bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough") thorough() = true;
        else if (a == "--out") out = argv[++i];
        else if (a == "--dir") dir = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--limit") limit = strtoull(argv[++i], nullptr, 10);
        else if (a == "--case") only = argv[++i];
        else if (a == "--list") list = true;
    }
    if (jobs > MAXW) jobs = MAXW;
    sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setup();
    { std::set<std::string> u; for (auto & c : cases()) if (!u.insert(c.label).second) { fprintf(stderr, "duplicate case %s\n", c.label.c_str()); return 2; } }
    if (list) { for (auto & c : cases()) puts(c.label.c_str()); return 0; }
    if (!only.empty())
    {
        for (uint64_t i = 0; i < cases().size(); ++i)
            if (cases()[i].label == only)
            {
                std::string msg;
                bool ok = run_case(i, msg);
                printf("%s %s\n", ok ? "HELD" : "BROKEN", msg.c_str());
                fflush(stdout);
                _exit(ok ? 0 : 1);
            }
        fprintf(stderr, "no such case: %s\n", only.c_str());
        return 2;
    }
    uint64_t t0 = now_ms();
    std::vector<pid_t> pid(jobs, 0);
    for (int w = 0; w < jobs; ++w) { sh()->w[w].idx = -1; pid[w] = spawn(w, -1, dir); }
    int live = jobs, crashes = 0;
    auto died = [&](int w, std::string const & why)
    {
        int64_t idx = sh()->w[w].idx;
        std::string e = dir + "/w" + std::to_string(w) + ".err";
        record(idx < 0 ? ~0ull : (uint64_t)idx, why + " [" + std::string(sh()->w[w].note) + "] " + tail_of(e));
        if (++crashes < 24 && sh()->next < cases().size() && sh()->nviol < 24) pid[w] = spawn(w, -1, dir);
        else { pid[w] = 0; --live; }
    };
    while (live > 0)
    {
        usleep(10000);
        for (int w = 0; w < jobs; ++w)
        {
            if (!pid[w]) continue;
            int st = 0;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w])
            {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; --live; }
                else if (WIFSIGNALED(st)) died(w, fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))));
                else died(w, fmt("process ended with status %d", WEXITSTATUS(st)));
            }
            else if (sh()->w[w].idx >= 0 && now_ms() - sh()->w[w].t0 > limit * 1000)
            {
                kill(pid[w], SIGKILL);
                waitpid(pid[w], &st, 0);
                died(w, fmt("HANG: no answer within %d s", (int)limit));
            }
        }
    }
    FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"cases\": %zu, \"cases_done\": %" PRIu64 ", \"states\": %" PRIu64 ", \"transitions\": %" PRIu64 ", \"traces\": %" PRIu64 ", \"wall_s\": %.2f,\n",
        cases().size(), sh()->cases_done.load(), sh()->states.load(), sh()->transitions.load(), sh()->traces.load(), (now_ms() - t0) / 1000.);
    fprintf(f, " \"counters\": {");
    for (unsigned i = 0; i < sh()->nctr; ++i) fprintf(f, "%s\"%s\": %" PRIu64, i ? ", " : "", esc(sh()->c[i].name).c_str(), sh()->c[i].n.load());
    fprintf(f, "},\n \"samples\": [");
    for (unsigned i = 0; i < std::min<unsigned>(MAXS, sh()->nsamples); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(sh()->s[i]).c_str());
    fprintf(f, "],\n \"violations\": [");
    for (unsigned i = 0; i < std::min<unsigned>(MAXV, sh()->nviol); ++i)
        fprintf(f, "%s\n  {\"case\": \"%s\", \"msg\": \"%s\"}", i ? "," : "", sh()->v[i].idx < cases().size() ? esc(cases()[sh()->v[i].idx].label).c_str() : "?", esc(sh()->v[i].msg).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return sh()->nviol ? 1 : 0;
}
}
void setup();   // provided by the harness: registers all cases
int main(int argc, char ** argv) { return vf::main_impl(argc, argv, setup); }
#endif

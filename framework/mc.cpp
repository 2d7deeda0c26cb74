#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __sanitizer_set_report_path(const char*) __attribute__((weak));

namespace mc
{

static const int MAXPATH = 16384;
static const int MSGLEN = 6000;

struct Shared                       // one per worker, survives the worker's death
{
    volatile int scenario;
    volatile int npath;
    volatile unsigned long long execs, steps, skipped, pruned, known;
    volatile int path[MAXPATH];
    char msg[MSGLEN];
    volatile int failed;            // 1 = fail(), 2 = harness divergence
    char knowntags[2000];
};

struct Pt { int v, n; bool dev; };

static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
Reg::Reg(const char* name, int split, std::function<void()> f, bool t) { scenarios().push_back({name, split, f, t}); }

static std::vector<Pt> g_path;
static size_t g_pos;
static int g_split = 0, g_nw = 1, g_id = 0, g_budget = 0, g_used = 0;
static bool g_verbose = false, g_thorough = false, g_shardmode = false, g_replay = false;
static Shared* g_sh = nullptr;
static std::string g_trace, g_scratch, g_prop;
static std::vector<std::string> g_known;
static int g_hint = 60;

struct Skip {};
struct Prune {};
struct Abandon {};

// ---- state set (open addressing) -------------------------------------------------------------
static std::vector<uint64_t> g_set;
static size_t g_setn = 0;
static void set_insert(uint64_t h)
{
    if (h == 0) { h = 1; }
    if (g_set.empty()) { g_set.assign(1 << 16, 0); }
    if (g_setn * 2 > g_set.size())
    {
        std::vector<uint64_t> old(g_set.size() * 2, 0);
        old.swap(g_set);
        g_setn = 0;
        for (auto x : old) { if (x) { set_insert(x); } }
    }
    size_t m = g_set.size() - 1, i = (h * 0x9E3779B97F4A7C15ULL) >> 20 & m;
    while (g_set[i] && g_set[i] != h) { i = (i + 1) & m; }
    if (!g_set[i]) { g_set[i] = h; ++g_setn; }
}

static uint64_t prefix_hash(size_t k)
{
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < k; ++i) { h ^= (uint64_t)g_path[i].v + 0x9E37 * (i + 1); h *= 1099511628211ULL; h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
    return h;
}
static bool owned(size_t k) { return (int)(prefix_hash(k) % (uint64_t)g_nw) == g_id; }

[[noreturn]] static void die(const std::string& msg, int kind)
{
    if (g_sh)
    {
        snprintf(g_sh->msg, MSGLEN, "%s", msg.c_str());
        g_sh->failed = kind;
        g_sh->npath = (int)std::min<size_t>(g_pos, MAXPATH);
    }
    if (g_verbose)
    {
        fprintf(stderr, "%sFAIL: %s\n", g_trace.c_str(), msg.c_str());
        fflush(stderr);
    }
    _exit(42);
}

static int choose_(int n, bool dev)
{
    if (n <= 0) { die("harness error: choose(0)", 2); }
    int v;
    if (g_pos < g_path.size())
    {
        Pt& p = g_path[g_pos];
        if (g_replay && p.n == 0) { p.n = n; }
        if (p.n != n || p.v >= n)
        {
            die(S("the same choices led to different behaviour (choice ", g_pos, " had ", p.n, " alternatives, now ", n, "): the code under test is not a function of its inputs"), 1);
        }
        v = p.v;
    }
    else
    {
        if (g_replay) { die("replay path too short", 2); }
        g_path.push_back({0, n, dev});
        v = 0;
    }
    if (g_sh && g_pos < (size_t)MAXPATH) { g_sh->path[g_pos] = v; }
    ++g_pos;
    if (g_sh) { g_sh->npath = (int)g_pos; }
    if (g_shardmode && (int)g_pos == g_split && !owned(g_pos)) { throw Skip(); }
    return v;
}

int choose(int n) { return choose_(n, false); }
void set_budget(int k) { g_budget = k; }
int deviate(int n)
{
    if (g_used >= g_budget || n <= 1) { return 0; }
    int v = choose_(n, true);
    if (v) { ++g_used; }
    return v;
}

void fail(const std::string& msg) { die(msg, 1); }
void fail_tag(const std::string& tag, const std::string& msg)
{
    if (std::find(g_known.begin(), g_known.end(), tag) != g_known.end())
    {
        if (g_sh)
        {
            g_sh->known = g_sh->known + 1;
            std::string cur = g_sh->knowntags;
            if (cur.find("|" + tag + "|") == std::string::npos && cur.size() + tag.size() + 4 < sizeof(g_sh->knowntags))
            { snprintf(g_sh->knowntags, sizeof(g_sh->knowntags), "%s|%s|", cur.c_str(), tag.c_str()); }
        }
        throw Abandon();
    }
    die(msg + "   (tag " + tag + ")", 1);
}
void prune() { throw Prune(); }
bool verbose() { return g_verbose; }
void trace(const std::string& s) { g_trace += "  " + s + "\n"; }
void step() { if (g_sh) { g_sh->steps = g_sh->steps + 1; } }
void state(uint64_t h) { set_insert(h); }
bool thorough() { return g_thorough; }
const std::string& scratch() { return g_scratch; }
void set_timeout_hint(int s) { g_hint = s; }

// ---- assertion trap ----------------------------------------------------------------------------
static jmp_buf g_jmp;
static volatile bool g_armed = false;
static char g_assert_msg[1024];

Stop guarded(const std::function<void()>& f, std::string* what)
{
    if (setjmp(g_jmp) != 0)
    {
        g_armed = false;
        if (what) { *what = g_assert_msg; }
        return Stop::assertion;
    }
    g_armed = true;
    try { f(); }
    catch (const std::exception& e) { g_armed = false; if (what) { *what = e.what(); } return Stop::exception; }
    catch (const Skip&) { g_armed = false; throw; }
    catch (const Prune&) { g_armed = false; throw; }
    catch (...) { g_armed = false; if (what) { *what = "non-std exception"; } return Stop::exception; }
    g_armed = false;
    return Stop::none;
}

int in_child(const std::function<int()>& f, int timeout_s)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        g_sh = nullptr;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1); dup2(fd, 2);
        alarm(timeout_s);
        int rc = 99;
        try { rc = f(); } catch (...) { rc = 98; }
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}

static volatile long g_live = 0;
static void mhook(const volatile void*, size_t) { g_live = g_live + 1; }
static void fhook(const volatile void* p) { if (p) { g_live = g_live - 1; } }
long live_allocs() { return g_live; }

// ---- running -----------------------------------------------------------------------------------
enum class Res { done, skip, prune, abandon };

static Res run_once(const Scenario& s)
{
    g_pos = 0;
    g_used = 0;
    g_budget = 0;
    if (g_sh) { g_sh->npath = 0; }
    try
    {
        s.body();
    }
    catch (const Skip&) { return Res::skip; }
    catch (const Prune&) { return Res::prune; }
    catch (const Abandon&) { return Res::abandon; }
    catch (const std::exception& e) { die(std::string("unexpected exception: ") + e.what(), 1); }
    catch (...) { die("unexpected exception of unknown type", 1); }
    if (g_pos < g_path.size()) { die("the same choices led to a shorter execution: the code under test is not a function of its inputs", 1); }
    return Res::done;
}

static bool next_path()
{
    g_path.resize(std::min(g_path.size(), g_pos));   // after Skip/Prune deeper stale entries are dropped
    while (!g_path.empty() && g_path.back().v + 1 >= g_path.back().n) { g_path.pop_back(); }
    if (g_path.empty()) { return false; }
    g_path.back().v++;
    return true;
}

static void quiet_fds(const std::string& errfile)
{
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    close(fd);
    close(e);
}

static std::vector<int> enabled_scenarios(const std::string& only)
{
    std::vector<int> r;
    for (size_t i = 0; i < scenarios().size(); ++i)
    {
        if (scenarios()[i].thorough_only && !g_thorough) { continue; }
        if (!only.empty() && scenarios()[i].name != only) { continue; }
        r.push_back((int)i);
    }
    std::sort(r.begin(), r.end(), [](int a, int b) { return scenarios()[a].name < scenarios()[b].name; });
    return r;
}

struct PerScen { unsigned long long execs, steps, states; };

[[noreturn]] static void worker(int id, int nw, const std::string& dir, const std::string& only, int stop_scen, unsigned long long stop_exec)
{
    g_id = id;
    g_nw = nw;
    g_shardmode = true;
    g_scratch = dir + "/w" + std::to_string(id);
    mkdir(g_scratch.c_str(), 0700);
    if (chdir(g_scratch.c_str()) != 0) { _exit(3); }
    quiet_fds(dir + "/err" + std::to_string(id));
    std::vector<unsigned long long> per;
    for (int s : enabled_scenarios(only))
    {
        const Scenario& sc = scenarios()[s];
        g_sh->scenario = s;
        g_split = std::max(1, sc.split);
        g_path.clear();
        unsigned long long e0 = g_sh->execs, t0 = g_sh->steps;
        size_t s0 = g_setn;
        unsigned long long local = 0;
        std::vector<int> sample;
        do
        {
            unsigned long long before = g_sh->steps;
            Res r = run_once(sc);
            ++local;
            if (r == Res::skip) { g_sh->skipped = g_sh->skipped + 1; g_sh->steps = before; continue; }
            if ((int)g_pos < g_split && !owned(g_pos)) { g_sh->steps = before; continue; }
            if (r == Res::prune) { g_sh->pruned = g_sh->pruned + 1; g_sh->steps = before; continue; }
            if (r == Res::abandon) { continue; }
            g_sh->execs = g_sh->execs + 1;
            if (s % nw == id)
            {
                unsigned long long k = g_sh->execs - e0;
                if ((k & (k - 1)) == 0) { sample.clear(); for (auto& p : g_path) { sample.push_back(p.v); } }
            }
        }
        while (next_path());
        if (s % nw == id)
        {
            std::ofstream o(dir + "/sample" + std::to_string(s));
            for (int v : sample) { o << v << " "; }
        }
        per.push_back(s);
        per.push_back(g_sh->execs - e0);
        per.push_back(g_sh->steps - t0);
        per.push_back(g_setn - s0);
        (void)stop_scen; (void)stop_exec; (void)local;
    }
    {
        std::ofstream o(dir + "/set" + std::to_string(id), std::ios::binary);
        for (auto x : g_set) { if (x) { o.write((const char*)&x, 8); } }
        std::ofstream p(dir + "/per" + std::to_string(id));
        for (auto x : per) { p << x << "\n"; }
    }
    g_sh->failed = 77;
    _exit(0);
}

static std::string slurp(const std::string& f, size_t cap = 6000)
{
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    std::string r = s.str();
    if (r.size() > cap) { r = r.substr(0, cap); }
    return r;
}

static double now_mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Re-runs one path in a fresh process.  Returns: 0 passes, 1 fails, 2 hangs, 3 harness error.  text = trace + error
static int replay_child(int scen, const std::vector<int>& path, const std::string& dir, std::string& text, int limit_s, bool first_path = false)
{
    std::string out = dir + "/replay_out";
    fflush(nullptr);
    std::cout.flush();
    pid_t p = fork();
    if (p == 0)
    {
        g_sh = nullptr;
        g_shardmode = false;
        g_verbose = true;
        g_scratch = dir + "/wr";
        mkdir(g_scratch.c_str(), 0700);
        if (chdir(g_scratch.c_str()) != 0) { _exit(3); }
        quiet_fds(out);
        g_path.clear();
        if (!first_path) { g_replay = true; for (int v : path) { g_path.push_back({v, 0, false}); } }
        Res r = run_once(scenarios()[scen]);
        (void)r;
        fprintf(stderr, "%s", g_trace.c_str());
        fflush(stderr);
        _exit(77);
    }
    double t0 = now_mono();
    int st = 0;
    while (true)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) { break; }
        if (now_mono() - t0 > limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); text = slurp(out); return 2; }
        usleep(2000);
    }
    text = slurp(out);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { return 0; }
    return 1;
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else { r += c; }
    }
    return r;
}

static void remove_tree(const std::string& d) { std::string c = "rm -rf -- '" + d + "' 2>/dev/null"; if (system(c.c_str())) {} }

} // namespace mc

// The library's debug assertions: a violation in ordinary runs, a caught stop in guarded() runs.
extern "C" void __assert_fail(const char* expr, const char* file, unsigned int line, const char* func) noexcept
{
    snprintf(mc::g_assert_msg, sizeof(mc::g_assert_msg), "%s:%u: %s: assertion `%s' failed", file, line, func, expr);
    if (mc::g_armed) { mc::g_armed = false; longjmp(mc::g_jmp, 1); }
    mc::die(std::string("a debug assertion fired on a valid call: ") + mc::g_assert_msg, 1);
}

// BLAS/LAPACK report an illegal argument here (the reference version then stops the program with status 0)
extern "C" void xerbla_(const char* name, const int* info, size_t len)
{
    mc::die(mc::S("illegal argument ", *info, " passed to the BLAS/LAPACK routine ", std::string(name, len > 16 ? 16 : len)), 1);
}

using namespace mc;

int main(int argc, char** argv)
{
    std::string prop, outdir = "/verif/replays", evidence, replay, only, level = "model_checking", known, rule, assume, sdir;
    int nw = 8;
    bool list = false;
    long seed = 1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--prop") { prop = nxt(); }
        else if (a == "--tier") { g_thorough = nxt() == "thorough"; }
        else if (a == "--replays") { outdir = nxt(); }
        else if (a == "--evidence") { evidence = nxt(); }
        else if (a == "--replay") { replay = nxt(); }
        else if (a == "--only") { only = nxt(); }
        else if (a == "--level") { level = nxt(); }
        else if (a == "--known") { known = nxt(); }
        else if (a == "--rule") { rule = nxt(); }
        else if (a == "--assume") { assume = nxt(); }
        else if (a == "--seed") { seed = atol(nxt().c_str()); }
        else if (a == "-j") { nw = atoi(nxt().c_str()); }
        else if (a == "--list") { list = true; }
    }
    g_prop = prop;
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if (__sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(mhook, fhook); }
    if (list) { for (int s : enabled_scenarios(only)) { std::cout << scenarios()[s].name << "\n"; } return 0; }
    {   // known findings of this property:  "known: property=<id> tag=<tag> <text>"
        std::ifstream k(known);
        std::string line;
        while (std::getline(k, line))
        {
            if (line.rfind("known: property=" + prop + " tag=", 0) != 0) { continue; }
            std::string t = line.substr(("known: property=" + prop + " tag=").size());
            g_known.push_back(t.substr(0, t.find(' ')));
        }
    }
    char tmpl[] = "/tmp/mc.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    std::string dir = tmpl;
    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string key, scen;
        std::vector<int> path;
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            is >> key;
            if (key == "scenario:") { is >> scen; }
            if (key == "choices:") { int v; while (is >> v) { path.push_back(v); } }
        }
        int rc = 3;
        for (size_t i = 0; i < scenarios().size(); ++i) if (scenarios()[i].name == scen)
        {
            std::string text;
            rc = replay_child((int)i, path, dir, text, 300);
            std::cout << text << "\n" << (rc == 0 ? "replay: PASSES" : rc == 2 ? "replay: HANGS" : "replay: FAILS") << "\n";
        }
        remove_tree(dir);
        return rc == 0 ? 0 : 1;
    }
    double t0 = now_mono();
    auto scs = enabled_scenarios(only);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(nw);
    std::cout.flush();
    fflush(nullptr);
    auto spawn = [&](int w)
    {
        memset((void*)&sh[w], 0, sizeof(Shared));
        pid_t p = fork();
        if (p == 0)
        {
            g_sh = &sh[w];
            worker(w, nw, dir, only, -1, 0);
        }
        pid[w] = p;
    };
    for (int w = 0; w < nw; ++w) { spawn(w); }
    std::vector<unsigned long long> last(nw, ~0ULL);
    std::vector<double> lastt(nw, t0);
    std::vector<bool> done(nw, false), retried(nw, false);
    int left = nw;
    bool violation = false;
    std::string vmsg, vtext, vscen;
    std::vector<int> vpath;
    int harness_error = 0;
    while (left > 0 && !violation && !harness_error)
    {
        bool any = false;
        for (int w = 0; w < nw; ++w)
        {
            if (done[w]) { continue; }
            int st;
            bool hang = false;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r != pid[w])
            {
                unsigned long long beat = sh[w].execs + sh[w].skipped + sh[w].pruned + sh[w].steps * 7919ULL;
                if (beat != last[w]) { last[w] = beat; lastt[w] = now_mono(); continue; }
                if (now_mono() - lastt[w] < g_hint) { continue; }
                kill(pid[w], SIGKILL);
                waitpid(pid[w], &st, 0);
                hang = true;
            }
            any = true;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].failed == 77) { done[w] = true; --left; continue; }
            // abnormal end
            std::vector<int> path;
            for (int i = 0; i < sh[w].npath && i < MAXPATH; ++i) { path.push_back((int)sh[w].path[i]); }
            int scen = sh[w].scenario;
            std::string how = hang ? std::string("an operation did not finish")
                              : sh[w].failed ? std::string(sh[w].msg)
                              : WIFSIGNALED(st) ? "the process was killed by signal " + std::to_string(WTERMSIG(st))
                              : "the process ended with exit status " + std::to_string(WEXITSTATUS(st)) + " inside an operation";
            if (sh[w].failed == 2) { std::cerr << "harness error: " << sh[w].msg << "\n"; harness_error = 1; break; }
            std::string err = slurp(dir + "/err" + std::to_string(w));
            std::string text;
            int rc = replay_child(scen, path, dir, text, hang ? 240 : 120);
            if (rc == 1 || rc == 2)
            {
                violation = true;
                vmsg = rc == 2 ? "an operation did not finish (re-run alone with a longer limit)" : how;
                vtext = text;
            }
            else if (hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !sh[w].failed))
            {   // slow machine or memory pressure: run that worker again, once
                if (retried[w]) { std::cerr << "worker stopped twice without a reproducible cause\n"; harness_error = 1; break; }
                retried[w] = true;
                spawn(w);
                lastt[w] = now_mono();
                last[w] = ~0ULL;
                continue;
            }
            else
            {   // fails only after the executions that preceded it: state leaked between independent executions
                violation = true;
                vmsg = how + " (only after the preceding executions of worker " + std::to_string(w) + "/" + std::to_string(nw) + ": hidden state is carried between independent calls, or uninitialised memory is read)";
                vtext = "  alone, the last execution passes:\n" + text + "\nstderr of the failing process:\n" + err;
            }
            vscen = scenarios()[scen].name;
            vpath = path;
            break;
        }
        if (!any) { usleep(1000); }
    }
    for (int w = 0; w < nw; ++w) { if (!done[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); } }

    unsigned long long execs = 0, steps = 0, pruned = 0, knownhits = 0;
    std::set<std::string> tags;
    for (int w = 0; w < nw; ++w)
    {
        execs += sh[w].execs;
        steps += sh[w].steps;
        pruned += sh[w].pruned;
        knownhits += sh[w].known;
        std::string t = sh[w].knowntags, cur;
        for (char c : t) { if (c == '|') { if (!cur.empty()) { tags.insert(cur); } cur.clear(); } else { cur += c; } }
    }
    std::string samples, perjson;
    unsigned long long states = 0;
    if (!violation && !harness_error)
    {
        std::vector<uint64_t> all;
        std::map<unsigned long long, PerScen> per;
        for (int w = 0; w < nw; ++w)
        {
            std::ifstream i(dir + "/set" + std::to_string(w), std::ios::binary);
            uint64_t x;
            while (i.read((char*)&x, 8)) { all.push_back(x); }
            std::ifstream p(dir + "/per" + std::to_string(w));
            unsigned long long a, b, c, d;
            while (p >> a >> b >> c >> d) { per[a].execs += b; per[a].steps += c; per[a].states += d; }
        }
        std::sort(all.begin(), all.end());
        states = std::unique(all.begin(), all.end()) - all.begin();
        for (auto& kv : per)
        {
            perjson += std::string(perjson.empty() ? "" : ", ") + "{\"scenario\": \"" + scenarios()[kv.first].name + "\", \"executions\": " +
                       std::to_string(kv.second.execs) + ", \"operations\": " + std::to_string(kv.second.steps) + "}";
        }
        int ns = 0;
        for (int s : scs)
        {
            if (ns++ >= 8) { break; }
            std::string text;
            std::vector<int> path;
            { std::ifstream i(dir + "/sample" + std::to_string(s)); int v; while (i >> v) { path.push_back(v); } }
            replay_child(s, path, dir, text, 60, path.empty());
            if (text.size() > 700) { text = text.substr(0, 700) + "..."; }
            samples += std::string(samples.empty() ? "" : ", ") + "\"" + jesc(scenarios()[s].name + ": " + text) + "\"";
        }
    }
    double wall = now_mono() - t0;
    if (!evidence.empty() && !harness_error)
    {
        std::ofstream e(evidence);
        e << "{\n  \"property\": \"" << prop << "\",\n  \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\",\n  \"seed\": " << seed
          << ",\n  \"level\": \"" << level << "\",\n  \"coverage\": {\n";
        if (level == "model_checking")
        {
            e << "    \"states\": " << states << ",\n    \"transitions\": " << steps << ",\n    \"traces_validated_against_impl\": " << execs << ",\n";
        }
        else
        {
            e << "    \"evaluations\": " << execs << ",\n    \"distinct_nontrivial\": " << states << ",\n    \"operations\": " << steps << ",\n";
        }
        e << "    \"rule\": \"" << jesc(rule) << "\",\n    \"exhaustive\": " << (violation ? "false" : "true") << ",\n"
          << "    \"choice_sequences_outside_bound\": " << pruned << ",\n    \"per_scenario\": [" << perjson << "],\n    \"samples\": ["
          << (samples.empty() ? "\"" + jesc(vtext.substr(0, 2000)) + "\"" : samples) << "]\n  },\n";
        e << "  \"assumptions\": [\"" << jesc(assume) << "\"],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << (violation ? 1 : 0) << "\n}\n";
    }
    int rc = 0;
    for (auto& t : tags)
    {
        std::ifstream k(known);
        std::string line;
        while (std::getline(k, line))
        {
            std::string pre = "known: property=" + prop + " tag=" + t;
            if (line.rfind(pre, 0) == 0) { std::cout << "KNOWN-FINDING: property=" << prop << " " << line.substr(pre.size()) << "\n"; }
        }
    }
    if (harness_error) { rc = 3; }
    else if (violation)
    {
        mkdir(outdir.c_str(), 0755);
        std::string f = outdir + "/" + prop + "-" + vscen + ".replay";
        {
            std::ofstream o(f);
            o << "property: " << prop << "\nscenario: " << vscen << "\nchoices:";
            for (int v : vpath) { o << " " << v; }
            o << "\n\nmessage: " << vmsg << "\n\ntrace of the failing execution:\n" << vtext << "\n";
        }
        std::cout << "violated in scenario " << vscen << ": " << vmsg << "\n" << vtext.substr(0, 3000) << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << f << "\n";
        rc = 1;
    }
    else
    {
        std::cout << "property " << prop << " held: " << execs << " executions, " << steps << " operations, " << states << " states, " << wall << " s\n";
    }
    std::cout.flush();
    remove_tree(dir);
    return rc;
}

// Stateless model checker for sequential C++ code (choice-tree exploration of the REAL code).
//
// A scenario is a function that calls mc::choose(n) wherever an input, an operation, a shape, a fault
// point or a schedule decision is left open.  The explorer runs the scenario once for EVERY sequence of
// choices (depth-first, replaying the prefix), in 8 forked workers that own disjoint sub-trees.  Each
// execution drives the real library and a boring reference model in lock-step and compares them.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{

int choose(int n);                        // explored exhaustively: returns 0..n-1
inline bool flag() { return choose(2) != 0; }
template <typename T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }

void set_budget(int k);                   // deviations allowed in this execution
int deviate(int n);                       // like choose, but a non-zero answer costs one deviation

[[noreturn]] void fail(const std::string& msg);
// a violation attributable to one specific input/call site; silent if `tag` is a listed known finding
[[noreturn]] void fail_tag(const std::string& tag, const std::string& msg);
[[noreturn]] void prune();                // this choice sequence is not part of the bounded space

bool verbose();
void trace(const std::string& s);
void step();                              // one operation of the real code executed and compared
void state(uint64_t h);                   // record a canonical state
bool thorough();
const std::string& scratch();             // private scratch directory of this worker
void set_timeout_hint(int seconds);

// Runs f; returns true when a debug assertion / std exception stopped it.  (longjmp out of the assertion)
enum class Stop { none, assertion, exception };
Stop guarded(const std::function<void()>& f, std::string* what = nullptr);

// Runs f in a forked child. returns wait status; stdout/stderr discarded
int in_child(const std::function<int()>& f, int timeout_s = 20);

long live_allocs();                       // live heap blocks (ASan malloc hooks)

struct Scenario
{
    std::string name;
    int split;
    std::function<void()> body;
    bool thorough_only;
};
struct Reg { Reg(const char* name, int split, std::function<void()> f, bool thorough_only = false); };

struct Hash
{
    uint64_t h = 0xcbf29ce484222325ULL;
    Hash& u(uint64_t x) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; return *this; }
    Hash& d(double x) { uint64_t b; if (x == 0) x = 0; memcpy(&b, &x, 8); return u(b); }
    Hash& s(const std::string& x) { u(x.size()); for (unsigned char c : x) { u(c); } return *this; }
    template <typename C> Hash& c(const C& v) { u(v.size()); for (auto x : v) { d((double)x); } return *this; }
    operator uint64_t() const { return h; }
};

template <typename A> void str_(std::ostringstream& o, const A& a) { o << a; }
template <typename A> void str_(std::ostringstream& o, const std::vector<A>& a)
{ o << "["; for (size_t i = 0; i < a.size(); ++i) { o << (i ? " " : ""); str_(o, a[i]); } o << "]"; }
template <typename... A> std::string S(const A&... a) { std::ostringstream o; o.precision(17); int d[] = {0, (str_(o, a), 0)...}; (void)d; return o.str(); }

} // namespace mc

#define MC_SCENARIO(name, split) static void name##_body(); static mc::Reg name##_reg(#name, split, name##_body); static void name##_body()
#define MC_SCENARIO_THOROUGH(name, split) static void name##_body(); static mc::Reg name##_reg(#name, split, name##_body, true); static void name##_body()
#define MC_TRACE(...) do { if (mc::verbose()) mc::trace(mc::S(__VA_ARGS__)); } while (0)
#define MC_STEP(...) do { mc::step(); MC_TRACE(__VA_ARGS__); } while (0)
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(mc::S(__VA_ARGS__, "   [", #cond, "]")); } while (0)

#endif

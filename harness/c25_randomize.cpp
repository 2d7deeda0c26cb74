// C25: seeded fills.  The entropy source is controlled by the explorer, so that every run decides the same executions and
// a fill that depends on anything but its seed shows.
#include "lin.hpp"
#include <climits>
#include <map>
#include <random>
using namespace lin;
namespace { unsigned entropy = 0; bool controlled = false; long asked = 0; }
extern "C" unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* self) { if (!controlled) { return __real__ZNSt13random_device9_M_getvalEv(self); } ++asked; return entropy * 2654435761u + (unsigned)asked * 40503u; }
namespace
{
struct Control { Control(unsigned e) { controlled = true; entropy = e; asked = 0; } ~Control() { controlled = false; } };
template <typename T> struct Range { T lo, hi; };
const std::vector<Range<int>> IR = {{0, 1}, {-5, 5}, {3, 3}, {INT_MIN, INT_MAX}, {0, INT_MAX}, {INT_MIN, -1}, {1000000, 1000002}};
const std::vector<Range<double>> RR = {{0, 1}, {-1, 1}, {2.5, 2.5}, {-1e300, 1e300}, {1e-300, 1e-299}, {-0.5, 0}, {100, 101}};
const std::vector<int> SEED = {0, 1, 2, 3, 7, 12345, 65536, 2147483646};
// free function on a vector, on a view inside other storage; method of a vector, of a view
enum { FREE, FREE_VIEW, METHOD, METHOD_VIEW, NFORM };
template <typename T> bool whole(T x) { return x >= -1000000 && x <= 1000000 && x == (T)(int)x; }
template <typename T> bool whole_range(Range<T> r) { return std::is_integral<T>::value || (whole((double)r.lo) && whole((double)r.hi)); }
template <typename T> std::vector<T> fill(int form, int n, Range<T> r, int seed, int previous)
{
    T guard = std::is_integral<T>::value ? (T)77 : (T)nan(); std::vector<T> store(n + 6, (T)5); std::vector<T> out;
    for (int i = 0; i < n; ++i) { store[3 + i] = previous == 0 ? (T)(std::is_integral<T>::value ? 123456 : 1e308) : previous == 1 ? (T)i : guard; }
    Vector<T> v(std::vector<T>(store.begin() + 3, store.begin() + 3 + n)); VectorView<T> w(store.data() + 3, n); std::string why;
    auto st = mc::guarded([&] { switch (form) { case FREE: Randomize(v, r.lo, r.hi, seed); break; case FREE_VIEW: Randomize(w, r.lo, r.hi, seed); break; case METHOD: v.Randomize((int)r.lo, (int)r.hi, seed); break; default: w.Randomize((int)r.lo, (int)r.hi, seed); } }, &why);
    MC_CHECK(st == mc::Stop::none, "stopped by ", why);
    bool view = form == FREE_VIEW || form == METHOD_VIEW; MC_CHECK((view ? w.size() : v.size()) == n, "the fill changed the length");
    for (int i = 0; i < n; ++i) { out.push_back(view ? w[i] : v[i]); if (view) { MC_CHECK(store[3 + i] == out[i], "the view left its storage"); } }
    for (int i = 0; i < 3; ++i) { MC_CHECK(store[i] == (T)5 && store[n + 3 + i] == (T)5, "the fill wrote outside its vector"); }
    return out;
}
template <typename T> void in_range(const std::vector<T>& v, Range<T> r, const std::string& what) { for (size_t i = 0; i < v.size(); ++i) { MC_CHECK(v[i] >= r.lo && v[i] <= r.hi, what, ": entry ", i, " is ", v[i]); } }
template <typename T> std::string name(int n, Range<T> r, int seed) { return mc::S("fill of ", n, std::is_integral<T>::value ? " integers in [" : " reals in [", r.lo, ",", r.hi, "] seed ", seed); }
// the long fill for this seed and range, made once; every other fill must begin like it
template <typename T> const std::vector<T>& reference(int ri, Range<T> r, int seed) { static std::map<std::pair<int, int>, std::vector<T>> m; auto& v = m[{ri, seed}]; if (v.empty()) { v = fill<T>(FREE, 300, r, seed, 0); } return v; }
template <typename T> void seeded(int form, int n, int ri, Range<T> r, int seed, int previous)
{
    if ((form == METHOD || form == METHOD_VIEW) && !whole_range(r)) { mc::prune(); }
    std::string what = name(n, r, seed); auto v = fill<T>(form, n, r, seed, previous); in_range(v, r, what); auto& ref = reference<T>(ri, r, seed);
    for (int i = 0; i < n; ++i) { MC_CHECK(v[i] == ref[i], what, " (form ", form, "): entry ", i, " is ", v[i], ", the same seed gave ", ref[i], " before"); }
    if (r.lo < r.hi) { auto hit = std::minmax_element(ref.begin(), ref.end()); MC_CHECK(*hit.first < *hit.second, what, ": all values are equal"); if (std::is_integral<T>::value && (double)r.hi - (double)r.lo <= 10) { for (T x = r.lo; x <= r.hi; x = x + 1) { MC_CHECK(std::find(ref.begin(), ref.end(), x) != ref.end(), what, ": 300 values never reach ", x); } } }
    mc::Hash h; h.u(form).u(n).u(ri).u(seed).u(previous).u(std::is_integral<T>::value); mc::state(h); MC_STEP(what, " form ", form);
}
void any(bool integer, int form, int n, int ri, int seed, int previous) { if (integer) { seeded<int>(form, n, ri, IR[ri], seed, previous); } else { seeded<double>(form, n, ri, RR[ri], seed, previous); } }
}
// every size, seed, range, form and previous content, under different entropy
MC_SCENARIO(fills, 4)
{
    std::vector<int> N = mc::thorough() ? std::vector<int>{} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 300}; if (N.empty()) { for (int i = 0; i <= 70; ++i) { N.push_back(i); } N.push_back(128); N.push_back(300); }
    bool integer = mc::flag(); int n = mc::pick(N), ri = mc::choose((int)IR.size()), seed = mc::pick(SEED), form = mc::choose(NFORM), previous = mc::choose(3); Control c(mc::choose(3));
    any(integer, form, n, ri, seed, previous);
}
// every sequence of fills: nothing generated before matters
MC_SCENARIO(histories, 3)
{
    int depth = mc::thorough() ? 4 : 3; Control c(mc::choose(2));
    for (int s = 0; s < depth; ++s)
    {
        int k = mc::choose(12); bool integer = k & 1; int form = (k / 2 + s) % NFORM, seed = k < 4 ? 1 : k < 8 ? 2 : 12345, n = k % 3 == 0 ? 3 : k % 3 == 1 ? 20 : 0, ri = k % 2 ? 1 : 1;
        if (k >= 10) { if (integer) { auto v = fill<int>(form, 5, IR[0], -1, 0); in_range(v, IR[0], "unseeded"); } else { auto v = fill<double>(form, 5, RR[0], -1, 0); in_range(v, RR[0], "unseeded"); } std::default_random_engine().seed(k); srand(k); MC_STEP("unseeded fill"); continue; }
        any(integer, form, n, ri, seed, s % 3);
    }
}
// without a seed, and with the default arguments: every entry is assigned, in range, whatever the entropy
MC_SCENARIO(unseeded, 3)
{
    bool integer = mc::flag(); int n = mc::pick({0, 1, 2, 7, 64, 300}), ri = mc::choose((int)IR.size()), form = mc::choose(NFORM), seed = mc::pick({-1, -2, INT_MIN}), e = mc::choose(8); Control c(e * 7919u);
    if (integer) { auto v = fill<int>(form, n, IR[ri], seed, 0); in_range(v, IR[ri], name(n, IR[ri], seed)); }
    else { if ((form == METHOD || form == METHOD_VIEW) && !whole_range(RR[ri])) { mc::prune(); } auto v = fill<double>(form, n, RR[ri], seed, 0); in_range(v, RR[ri], name(n, RR[ri], seed)); }
    mc::state(mc::Hash().u(integer).u(n).u(ri).u(form).u(seed).u(e)); MC_STEP("unseeded");
}
MC_SCENARIO(default_arguments, 2)
{
    int n = mc::pick({0, 1, 5, 50}), form = mc::choose(6); bool integer = mc::flag(); Control c(mc::choose(4));
    Vector<double> d(n, -9.0); Vector<int> i(n, -9); double lo = 0, hi = 1;
    if (integer) { switch (form) { case 0: i.Randomize(); break; case 1: Randomize(i); break; case 2: i.Randomize(-3); lo = -3; break; case 3: Randomize(i, -3); lo = -3; break; case 4: i.Randomize(2, 4); lo = 2; hi = 4; break; default: Randomize(i, 2, 4); lo = 2; hi = 4; } }
    else { switch (form) { case 0: d.Randomize(); break; case 1: Randomize(d); break; case 2: d.Randomize(-3); lo = -3; break; case 3: Randomize(d, -3.5); lo = -3.5; break; case 4: d.Randomize(2, 4); lo = 2; hi = 4; break; default: Randomize(d, 2.25, 2.5); lo = 2.25; hi = 2.5; } }
    for (int k = 0; k < n; ++k) { double v = integer ? (double)i[k] : d[k]; MC_CHECK(v >= lo && v <= hi, "entry ", k, " is ", v, ", not in [", lo, ",", hi, "]"); if (integer) { MC_CHECK(v == std::floor(v), "integer"); } }
    mc::state(mc::Hash().u(n).u(form).u(integer)); MC_STEP("default arguments ", form);
}
// different positive seeds: every pair out of a set
MC_SCENARIO(different_seeds, 3)
{
    Control c(0); int hi = mc::thorough() ? 400 : 120, a = 1 + mc::choose(hi); int n = mc::pick({1, 2, 10}); auto x = fill<double>(FREE, n, RR[0], a, 0);
    for (int b = a + 1; b <= hi + 5; ++b) { auto y = fill<double>(FREE, n, RR[0], b, 0); MC_CHECK(x != y, "seeds ", a, " and ", b, " give the same ", n, " values"); mc::step(); }
    for (int b : {65536, 1000003, 2147483646}) { MC_CHECK(x != fill<double>(FREE, n, RR[0], b, 0), "seeds ", a, " and ", b, " give the same values"); }
    mc::state(mc::Hash().u(a).u(n)); MC_TRACE("seed ", a);
}
// lengths at which an implementation might change its way of filling
MC_SCENARIO(large, 3)
{
    bool integer = mc::flag(); int n = mc::pick({511, 1025, 4097, 10007, 65539}), ri = mc::choose((int)IR.size()), form = mc::choose(NFORM), seed = mc::pick({1, 12345}); Control c(mc::choose(2));
    auto go = [&](auto r, bool whole) { typedef decltype(r.lo) T; if ((form == METHOD || form == METHOD_VIEW) && !whole) { mc::prune(); } std::string what = name<T>(n, r, seed);
        auto v = fill<T>(form, n, r, seed, 1), w = fill<T>(FREE, n + 13, r, seed, 0); in_range(v, r, what);
        for (int i = 0; i < n; ++i) { MC_CHECK(v[i] == w[i], what, " (form ", form, "): entry ", i, " is ", v[i], ", a longer fill gives ", w[i]); }
        if (r.lo < r.hi) { for (int at = 0; at + 100 <= n; at += 100) { auto hit = std::minmax_element(v.begin() + at, v.begin() + at + 100); MC_CHECK(*hit.first < *hit.second, what, ": all of entries ", at, "... are equal"); if (at) { MC_CHECK(!std::equal(v.begin(), v.begin() + 100, v.begin() + at), what, ": entries ", at, "... repeat the first ones"); } } }
        auto u = fill<T>(form, n, r, -1, 1); in_range(u, r, "unseeded " + what); };
    if (integer) { go(IR[ri], true); } else { go(RR[ri], whole_range(RR[ri])); }
    mc::state(mc::Hash().u(integer).u(n).u(ri).u(form).u(seed).u(17)); MC_STEP("fill of ", n);
}

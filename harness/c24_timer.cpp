// C24: timers under a controlled clock.  Every clock the library may read returns the reading chosen by the explorer, and
// jumps before every operation, so a reading taken at any other moment shows.
#include "mc.hpp"
#include "timer.hpp"
#include <cmath>
#include <memory>
using namespace linalgcpp;
namespace { bool controlled = false; long long now_ns = 0; }
extern "C" std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return controlled ? std::chrono::system_clock::time_point(std::chrono::nanoseconds(now_ns)) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return controlled ? std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now_ns)) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
namespace
{
typedef std::vector<long long> Model;
const long long START = 1600000000000000000LL;
const std::vector<long long> STEP = {0, 1, 1500000000LL, -2000000000LL, 3600000000000LL, 34560000000000000LL, 999};
struct Clock { Clock() { controlled = true; now_ns = START; } ~Clock() { controlled = false; } };
bool close(double a, double b) { return std::fabs(a - b) <= 1e-15 * std::fabs(b) + 1e-18; }
void check(const Timer& t, const Model& m, const std::string& what)
{
    now_ns += 777777;                                               // time passes while the timer is queried
    double total = m.size() < 2 ? 0 : (m.back() - m.front()) / 1e9;
    MC_CHECK(close(t.TotalTime(), total), what, ": total ", t.TotalTime(), " s, expected ", total);
    for (size_t i = 0; i + 1 < m.size(); ++i) { double s = (m[i + 1] - m[i]) / 1e9; MC_CHECK(close(t[(int)i], s), what, ": step ", i, " took ", t[(int)i], " s, expected ", s); now_ns += 5; }
    MC_CHECK(close(t.TotalTime(), total), what, ": total asked again"); now_ns -= 777777 + 5 * (m.size() > 1 ? (long long)m.size() - 1 : 0);
}
std::unique_ptr<Timer> fresh(int kind, Model& m)
{
    m.clear();
    switch (kind)
    {
    case 0: return std::unique_ptr<Timer>(new Timer());
    case 1: return std::unique_ptr<Timer>(new Timer(Timer::Start::False));
    default: m.push_back(now_ns); return std::unique_ptr<Timer>(new Timer(Timer::Start::True));
    }
}
}
// every sequence of clicks and queries on one timer, every clock reading
MC_SCENARIO(clicks, 3)
{
    Clock c; Model m; auto t = fresh(mc::choose(3), m); int n = mc::choose(mc::thorough() ? 7 : 6); bool query = mc::flag(); if (query) { check(*t, m, "new timer"); }
    for (int i = 0; i < n; ++i) { now_ns += mc::pick(STEP); t->Click(); m.push_back(now_ns); if (query) { check(*t, m, mc::S("after click ", i)); } }
    now_ns += 123; check(*t, m, mc::S("after ", n, " clicks")); mc::Hash h; for (auto x : m) { h.u(x); } mc::state(h); MC_STEP(m.size(), " readings");
}
// several timers, restarted, copied and moved
MC_SCENARIO(pool, 3)
{
    Clock c; const int N = 2; Model m[N]; std::unique_ptr<Timer> t[N]; t[0] = fresh(0, m[0]); t[1] = fresh(2, m[1]); int depth = mc::thorough() ? 6 : 5;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(7), i = mc::choose(N), j = 1 - i; now_ns += 1000003LL * (s + 1) * (s % 2 ? 1000 : 1);
        switch (op)
        {
        case 0: case 1: if (op) { now_ns += 2000000000LL; } t[i]->Click(); m[i].push_back(now_ns); break;
        case 2: *t[i] = *t[j]; m[i] = m[j]; break;
        case 3: t[i].reset(new Timer(*t[j])); m[i] = m[j]; break;
        case 4: { Timer x(std::move(*t[i])); t[i].reset(new Timer(std::move(x))); break; }
        case 5: t[i] = fresh(2, m[i]); break;
        case 6: { std::swap(*t[0], *t[1]); std::swap(m[0], m[1]); if (i) { mc::prune(); } break; }
        }
        for (int k = 0; k < N; ++k) { check(*t[k], m[k], mc::S("timer ", k, " after operation ", op)); }
        mc::Hash h; for (int k = 0; k < N; ++k) { h.u(k); for (auto x : m[k]) { h.u(x - START); } } mc::state(h); MC_STEP("operation ", op, " on ", i);
    }
}
MC_SCENARIO(many_clicks, 3)
{
    Clock c; Model m; auto t = fresh(mc::choose(3), m); int n = mc::pick({15, 16, 17, 33, 64, 65, 500}), p = mc::choose(3);
    for (int i = 0; i < n; ++i) { now_ns += p == 0 ? 1000 : p == 1 ? (i % 7) * 100000007LL : (i % 5 - 1) * 250000000LL; t->Click(); m.push_back(now_ns); check(*t, m, mc::S("click ", i)); }
    mc::state(mc::Hash().u(n).u(p)); MC_STEP(n, " clicks");
}
MC_SCENARIO(thousands_of_clicks, 3)
{
    Clock c; Model m; auto t = fresh(mc::choose(3), m); int n = mc::pick({1023, 1024, 1025, 5000, 70000}), p = mc::choose(2), copied = mc::choose(2);
    for (int i = 0; i < n; ++i) { now_ns += p == 0 ? 1000003 : (i % 7 - 1) * 100000007LL; t->Click(); m.push_back(now_ns); if (copied && i == n / 2) { t.reset(new Timer(*t)); } }
    check(*t, m, mc::S(n, " clicks")); mc::state(mc::Hash().u(n).u(p).u(copied)); MC_STEP(n, " clicks");
}

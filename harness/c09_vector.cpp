// C09: vector arithmetic, reductions, comparisons; owning vectors and views inside guarded storage.
#include "lin.hpp"
using namespace lin;
namespace
{
typedef std::vector<double> D;
// a target that is either a vector of its own or a window in the middle of a larger one; the surroundings must not change
template <typename T>
struct Target
{
    Vector<T> own, big; int n; bool view;
    static constexpr int G = 3;
    Target(const D& v, bool view_) : own(vec<T>(v)), big((int)v.size() + 2 * G), n(v.size()), view(view_)
    { for (int i = 0; i < big.size(); ++i) { big[i] = (T)(9000 + i); } for (int i = 0; i < n; ++i) { big[G + i] = (T)v[i]; } }
    VectorView<T> get() { return view ? VectorView<T>(big.begin() + G, n) : VectorView<T>(own.begin(), n); }
    void check(const D& want, const std::string& what)
    {
        if (view) { for (int i = 0; i < G; ++i) { MC_CHECK(big[i] == (T)(9000 + i) && big[G + n + i] == (T)(9000 + G + n + i), what, ": wrote outside the view"); } }
        auto v = get(); same_vec(v, want, what);
    }
};
D map1(const D& a, const std::function<double(double)>& f) { D o; for (double x : a) { o.push_back(f(x)); } return o; }
D map2(const D& a, const D& b, const std::function<double(double, double)>& f) { D o; for (size_t i = 0; i < a.size(); ++i) { o.push_back(f(a[i], b[i])); } return o; }
bool has0(const D& a) { for (double x : a) { if (x == 0) { return true; } } return false; }
double dot(const D& a, const D& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return s; }
double junkv(double) { return nan(); }
int junkv(int) { return 77777; }
// factors a vector can be scaled by; integer vectors by fractions only where every product is whole
template <typename T>
std::vector<double> factors(const D& b)
{
    std::vector<double> f = {2, -3, 0, 1};
    for (double al : {0.5, -2.5, 1.25, -0.75}) { bool whole = true; for (double q : b) { whole &= al * q == std::floor(al * q); } if (whole || !std::is_same<T, int>::value) { f.push_back(al); } }
    return f;
}
const int NBIN = 24;
template <typename T>
void binary(int op, const D& a, const D& b, bool view)
{
    const Vector<T> y = vec<T>(b); const VectorView<T>& yv = y;
    Target<T> t(a, view); auto x = t.get();
    auto sum = map2(a, b, [](double p, double q) { return p + q; }), dif = map2(a, b, [](double p, double q) { return p - q; });
    std::string W = mc::S("binary operation ", op);
    const int n = a.size();
    Vector<T> z(n, junkv(T()));
    switch (op)
    {
    case 0: { auto r = (x += yv); same_vec(r, sum, W); t.check(sum, W); break; }
    case 1: { auto r = (x -= yv); same_vec(r, dif, W); t.check(dif, W); break; }
    case 2: { auto w = map2(a, b, [](double p, double q) { return p * q; }); auto r = (x *= yv); same_vec(r, w, W); t.check(w, W); break; }
    case 3: if (!has0(b)) { auto w = map2(a, b, [](double p, double q) { return (T)((T)p / (T)q); }); auto r = (x /= yv); same_vec(r, w, W); t.check(w, W); } break;
    case 4: { auto& r = x.Add(yv); MC_CHECK(&r == &x, W, ": does not return the target"); t.check(sum, W); break; }
    case 5: { auto& r = x.Sub(yv); MC_CHECK(&r == &x, W, ": does not return the target"); t.check(dif, W); break; }
    case 6: for (double al : factors<T>(b)) { Target<T> u(a, view); auto v = u.get(); auto& r = v.Add(al, yv); MC_CHECK(&r == &v, W, ": does not return the target"); u.check(map2(a, b, [&](double p, double q) { return p + al * q; }), W); } break;
    case 7: for (double al : factors<T>(b)) { Target<T> u(a, view); auto v = u.get(); auto& r = v.Sub(al, yv); MC_CHECK(&r == &v, W, ": does not return the target"); u.check(map2(a, b, [&](double p, double q) { return p - al * q; }), W); } break;
    case 8: for (double al : factors<T>(b)) { x = junkv(T()); auto& r = x.Set(al, yv); MC_CHECK(&r == &x, W, ": does not return the target"); t.check(map1(b, [&](double q) { return al * q; }), W); } break;
    case 9: { x = junkv(T()); auto& r = x.Set(yv); MC_CHECK(&r == &x, W, ": does not return the target"); t.check(b, W); break; }
    case 10: { x = junkv(T()); x = yv; t.check(b, W); break; }
    case 11: { double d = dot(a, b); MC_CHECK(x.Mult(yv) == d && y.Mult(x) == d && InnerProduct(x, yv) == d && x * yv == d && InnerProduct(yv, x) == d, "inner product is ", x.Mult(yv), " expected ", d); Vector<T> o = vec<T>(a); MC_CHECK(o.Mult(yv) == d && o * y == d, "inner product of vectors"); t.check(a, W); break; }
    case 12: { Vector<T> o = vec<T>(a); same_vec(o + y, sum, W); same_vec(o - y, dif, W); same_vec(o, a, W); break; }
    case 13: { const VectorView<T>& xv = x; Add(xv, yv, VectorView<T>(z)); same_vec(z, sum, W); t.check(a, W); break; }
    case 14: { const VectorView<T>& xv = x; Sub(xv, yv, VectorView<T>(z)); same_vec(z, dif, W); t.check(a, W); break; }
    case 15: { const Vector<T> o = vec<T>(a); const VectorView<T>& ov = o; Add(ov, yv, t.get()); t.check(sum, W); break; }          // z is x's storage
    case 16: { const VectorView<T>& xv = x; Sub(xv, yv, t.get()); t.check(dif, W); break; }
    case 17: { bool eq = a.size() == b.size(); for (int i = 0; i < n; ++i) { eq &= std::fabs(a[i] - b[i]) <= 1e-12; } const VectorView<T>& xv = x; MC_CHECK((xv == yv) == eq && (yv == xv) == eq, "comparison is ", xv == yv, " expected ", eq); break; }
    case 18: { for (T al : {T(1), T(-2), T(0)}) for (T be : {T(1), T(3)}) for (T ga : {T(0), T(2), T(-1)}) { Target<T> u(D(n, 5), view); const VectorView<T>& xv = x; Add(al, xv, be, yv, ga, u.get()); u.check(map2(a, b, [&](double p, double q) { return al * p + be * q + ga * 5; }), W); } t.check(a, W); break; }
    case 19: { Vector<T> c((const T*)y.begin(), n); same_vec(c, b, W); for (int i = 0; i < n; ++i) { c[i] = T(5); } same_vec(y, b, W + ": source of a copy"); Vector<T> o = vec<T>(a); o = y; same_vec(o, b, W); o = x; same_vec(o, a, W); break; }
    case 20: x += x; t.check(map1(a, [](double p) { return 2 * p; }), W); x -= x; t.check(D(n, 0), W); break;
    case 21: x *= x; t.check(map1(a, [](double p) { return p * p; }), W); break;
    case 22: if (!has0(a)) { x /= x; t.check(D(n, 1), W); } { Target<T> u(a, view); auto v = u.get(); v.Add(2, v); u.check(map1(a, [](double p) { return 3 * p; }), W); v.Sub(1, v); u.check(D(n, 0), W); } break;
    case 23: { Target<T> u(a, view); auto v = u.get(); v.Set(-2, v); u.check(map1(a, [](double p) { return -2 * p; }), W); v.Add(v); u.check(map1(a, [](double p) { return -4 * p; }), W); v.Sub(v); u.check(D(n, 0), W); break; }
    }
    same_vec(y, b, mc::S(W, ": right operand"));
    MC_STEP("operation ", op, " on ", a, " and ", b, view ? " (view)" : "");
}
const int NUN = 12;
template <typename T>
void unary(int op, const D& a, bool view)
{
    Target<T> t(a, view); auto x = t.get();
    std::string W = mc::S("scalar operation ", op);
    const int n = a.size();
    std::vector<T> S = {T(2), T(-3), T(1)}; if (std::is_same<T, double>::value) { S.push_back(T(0.5)); }
    for (T s : S)
    {
        Target<T> u(a, view); auto v = u.get(); Vector<T> o = vec<T>(a);
        switch (op)
        {
        case 0: { auto w = map1(a, [&](double p) { return p * s; }); auto r = (v *= s); same_vec(r, w, W); u.check(w, W); same_vec(o * s, w, W); same_vec(s * o, w, W); same_vec(o, a, W); break; }
        case 1: { auto w = map1(a, [&](double p) { return (T)p / s; }); auto r = (v /= s); same_vec(r, w, W); u.check(w, W); same_vec(o / s, w, W); same_vec(o, a, W); break; }
        case 2: { auto w = map1(a, [&](double p) { return p + s; }); auto r = (v += s); same_vec(r, w, W); u.check(w, W); break; }
        case 3: { auto w = map1(a, [&](double p) { return p - s; }); auto r = (v -= s); same_vec(r, w, W); u.check(w, W); break; }
        case 4: { auto& r = (v = s); MC_CHECK(&r == &v, W, ": does not return the target"); u.check(D(n, s), W); o = s; same_vec(o, D(n, s), W); break; }
        case 5: if (!has0(a)) { same_vec(s / o, map1(a, [&](double p) { return s / (T)p; }), W); same_vec(o, a, W); } break;
        case 6: if (n > 0) { auto w = map1(a, [&](double p) { return p * a[n / 2]; }); v *= v[n / 2]; u.check(w, mc::S(W, " by an own entry")); Target<T> q(a, view); auto z = q.get(); z += z[0]; q.check(map1(a, [&](double p) { return p + a[0]; }), "adding an own entry"); z -= z[n - 1]; q.check(map1(a, [&](double p) { return p + a[0] - (a[n - 1] + a[0]); }), "subtracting an own entry"); z = z[0]; } break;
        case 7: if (n > 0 && a[0] != 0) { auto w = map1(a, [&](double p) { return (T)p / (T)a[0]; }); v /= v[0]; u.check(w, mc::S(W, " by an own entry")); } break;
        default: break;
        }
    }
    const Vector<T> c = vec<T>(a); const VectorView<T>& cv = c;
    double sm = 0, mx = 0, mn = 0, amx = 0, amn = 0;
    for (int i = 0; i < n; ++i) { double v = a[i]; sm += v; if (!i || v > mx) { mx = v; } if (!i || v < mn) { mn = v; } if (!i || std::fabs(v) > amx) { amx = std::fabs(v); } if (!i || std::fabs(v) < amn) { amn = std::fabs(v); } }
    switch (op)
    {
    case 8:
        MC_CHECK(x.Sum() == sm && Sum(x) == sm && Sum(cv) == sm && c.Sum() == sm, "Sum is ", x.Sum(), " expected ", sm);
        if (n > 0) { MC_CHECK(Max(cv) == mx && Min(cv) == mn && AbsMax(cv) == amx && AbsMin(cv) == amn && Max(x) == mx && Min(x) == mn, "extrema of ", a, ": ", Max(cv), " ", Min(cv), " ", AbsMax(cv), " ", AbsMin(cv)); MC_CHECK(std::fabs(Mean(cv) - sm / n) <= 1e-14 * std::fabs(sm / n), "Mean is ", Mean(cv), " expected ", sm / n); }
        break;
    case 9: { double l = std::sqrt(dot(a, a)); MC_CHECK(std::fabs(x.L2Norm() - l) <= 1e-14 * l && std::fabs(L2Norm(cv) - l) <= 1e-14 * l, "L2Norm is ", x.L2Norm(), " expected ", l); break; }
    case 10:
        {
            std::vector<int> idx; int l = n ? (int)(std::fmod(a[0], 64.0) * 4 + n) & 3 : 0; for (int k = 0; k < l + 1 && n; ++k) { idx.push_back((k * 2 + n - 1) % n); } if (n) { idx.push_back(idx[0]); }
            D w; for (int k : idx) { w.push_back(a[k]); }
            same_vec(x.GetSubVector(idx), w, "GetSubVector"); same_vec(cv.GetSubVector(idx), w, "GetSubVector");
            for (int p : {0, 1, 5, (int)idx.size()}) { Vector<T> o(p, junkv(T())); cv.GetSubVector(idx, o); same_vec(o, w, "GetSubVector into a vector"); }
            break;
        }
    case 11:
        if (!std::is_same<T, double>::value)          // cannot be done in integers
        {
            bool told = false; try { x.Normalize(); } catch (const std::exception&) { told = true; } MC_CHECK(told, "Normalize of an integer vector raises no error");
        }
        else if (n > 0 && dot(a, a) > 0)
        {
            double l = std::sqrt(dot(a, a));
            for (int k = 0; k < 3; ++k)
            {
                Vector<double> d = vec(a);
                if (k == 0) { d.Normalize(); } else if (k == 1) { Normalize(VectorView<double>(d)); } else { VectorView<double> v(d); v.Normalize(); }
                for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(d[i] - a[i] / l) <= 1e-14, "Normalize entry ", i, " is ", d[i], " expected ", a[i] / l); }
                Vector<double> e = vec(a); SubAvg(VectorView<double>(e));
                for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(e[i] - (a[i] - sm / n)) <= 1e-13 * (1 + amx), "SubAvg entry ", i, " is ", e[i]); }
            }
        }
        break;
    }
    t.check(a, mc::S(W, ": input"));
    MC_STEP("scalar operation ", op, " on ", a, view ? " (view)" : "");
}
}
MC_SCENARIO(every_value, 8)
{
    bool integer = mc::flag(), view = mc::flag();
    int n = mc::choose(4), op = mc::choose(NBIN + NUN);
    D al = integer ? D{0, 1, -2, 3} : D{0, 1, -2, 0.5};
    if (mc::thorough() && n <= 2) { al.push_back(-7); al.push_back(100); al.push_back(integer ? -1 : -0.25); }
    D a(n), b(n);
    for (double& v : a) { v = mc::pick(al); }
    if (op < NBIN) { for (double& v : b) { v = mc::pick(al); } }
    mc::state(mc::Hash().u(integer).u(view).u(op).c(a).c(b));
    if (op < NBIN) { if (integer) { binary<int>(op, a, b, view); } else { binary<double>(op, a, b, view); } }
    else { if (integer) { unary<int>(op - NBIN, a, view); } else { unary<double>(op - NBIN, a, view); } }
}
MC_SCENARIO(every_length, 6)
{
    bool integer = mc::flag(), view = mc::flag();
    int n = mc::choose(mc::thorough() ? 140 : 70), op = mc::choose(NBIN + NUN), seed = mc::choose(2);
    D a = iramp(n, seed), b = iramp(n, seed + 1);
    if (seed) { for (double& v : a) { if (v == 0) { v = 3; } } for (double& v : b) { if (v == 0) { v = -1; } } }
    for (double& v : b) { if (!integer) { static const double P[] = {1, -2, 4, 0.5}; v = seed ? P[((int)v + 8) % 4] : v; } }
    mc::state(mc::Hash().u(integer).u(view).u(op).c(a).c(b));
    if (op < NBIN) { if (integer) { binary<int>(op, a, b, view); } else { binary<double>(op, a, b, view); } }
    else { if (integer) { unary<int>(op - NBIN, a, view); } else { unary<double>(op - NBIN, a, view); } }
}
// entries of unusual magnitude and precision
MC_SCENARIO(magnitudes, 6)
{
    bool view = mc::flag();
    int n = mc::choose(6), op = mc::choose(NBIN + NUN), mode = mc::choose(3), side = mc::choose(2);
    const double f = mode == 0 ? 1 + std::ldexp(1.0, -27) : mode == 1 ? std::ldexp(1.0, -200) : std::ldexp(1.0, 200);
    static const double P[] = {1, -2, 4, 0.5};
    D a = iramp(n, 1), b(n);
    for (int i = 0; i < n; ++i) { if (a[i] == 0) { a[i] = 3; } b[i] = P[i % 4]; }
    if (side == 0 || mode == 0) { for (double& v : a) { v *= f; } }
    if (side == 1) { for (double& v : b) { v *= mode == 0 ? std::ldexp(1.0, -60) : f; } }
    mc::state(mc::Hash().u(view).u(op).u(3).c(a).c(b));
    if (op < NBIN) { binary<double>(op, a, b, view); } else { unary<double>(op - NBIN, a, view); }
}
// one distinguished entry at every position: extrema, sums, comparison
MC_SCENARIO(one_special_entry, 6)
{
    int n = 1 + mc::choose(mc::thorough() ? 40 : 20), p = mc::choose(n); double s = mc::pick({1e-13, -5e-13, 3e-12, -1., 9., -9., 1e300});
    D a = iramp(n, 1); for (double& v : a) { v /= 2; } D b = a; b[p] += s;
    auto x = vec(a), y = vec(b); const VectorView<double>& xv = x; const VectorView<double>& yv = y;
    bool eq = std::fabs(a[p] - b[p]) <= 1e-12;
    MC_CHECK((xv == yv) == eq && (yv == xv) == eq, "vectors differing by ", b[p] - a[p], " at ", p, " compare ", xv == yv);
    D z(n, 0); z[p] = s; auto v = vec(z); const VectorView<double>& vv = v;
    MC_CHECK((vv == vec(D(n, 0))) == (std::fabs(s) <= 1e-12), "comparison with zero of ", s, " at ", p);
    MC_CHECK(Max(vv) == (n == 1 ? s : std::max(0., s)) && Min(vv) == (n == 1 ? s : std::min(0., s)) && AbsMax(vv) == std::fabs(s) && AbsMin(vv) == (n == 1 ? std::fabs(s) : 0), "extrema with ", s, " at ", p);
    MC_CHECK(Sum(vv) == s, "Sum");
    int m = mc::choose(3) - 1; D c = a; if (m < 0) { c.pop_back(); } else if (m > 0) { c.push_back(0); }
    if (m) { const Vector<double> w = vec(c); const VectorView<double>& wv = w; MC_CHECK(!(xv == wv) && !(wv == xv), "vectors of different lengths are equal"); }
    mc::state(mc::Hash().u(n).u(p).d(s).u(m));
    MC_STEP("entry ", p, " of ", n, " special by ", s);
}
MC_SCENARIO(mixed_types, 4)
{
    int n = mc::choose(4); D a(n), b(n);
    for (double& v : a) { v = mc::pick({0., 1.5, -2.}); }
    for (double& v : b) { v = mc::pick({0., 1., -2.}); }
    auto x = vec(a); const Vector<int> k = vec<int>(b); const VectorView<int>& kv = k; const VectorView<double>& xv = x;
    bool eq = true; for (int i = 0; i < n; ++i) { eq &= a[i] == b[i]; }
    MC_CHECK((xv == kv) == eq && (kv == xv) == eq, "mixed comparison");
    x += kv;
    same_vec(x, map2(a, b, [](double p, double q) { return p + q; }), "real += integer"); same_vec(k, b, "integer operand");
    mc::state(mc::Hash().c(a).c(b));
    MC_STEP("mixed ", a, b);
}
MC_SCENARIO(gathers, 6)
{
    int n = 1 + mc::choose(5), l = mc::choose(mc::thorough() ? 6 : 5); std::vector<int> idx(l); for (int& i : idx) { i = mc::choose(n); }
    D a = ramp(n, 2), w; for (int i : idx) { w.push_back(a[i]); }
    auto x = vec(a); same_vec(x.GetSubVector(idx), w, "GetSubVector");
    Vector<double> o(mc::choose(4), nan()); x.GetSubVector(idx, o); same_vec(o, w, "GetSubVector into a vector");
    x.GetSubVector(idx, o); same_vec(o, w, "GetSubVector into the same vector again"); same_vec(x, a, "source");
    mc::state(mc::Hash().u(n).c(idx).u(o.size()));
    MC_STEP("gather ", idx, " of ", n);
}
MC_SCENARIO(histories, 4)
{
    int depth = mc::thorough() ? 4 : 3;
    std::vector<D> m = {{1, 2, 3}, {-1, 4, 0.5}, {2, 0, -3}};
    std::vector<Vector<double>> v; for (auto& x : m) { v.push_back(vec(x)); }
    VectorView<double> w(v[2].begin(), 2);                    // window onto the first two entries of v2
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(11), i = mc::choose(3), j = op == 8 || op == 9 || op == 10 ? 0 : mc::choose(3);
        const VectorView<double>& vj = v[j]; D mj = m[j];
        auto ap = [&](const std::function<double(double, double)>& f) { m[i] = map2(m[i], mj, f); };
        switch (op)
        {
        case 0: v[i] += vj; ap([](double a, double b) { return a + b; }); break;
        case 1: v[i] -= vj; ap([](double a, double b) { return a - b; }); break;
        case 2: v[i].Add(-2, vj); ap([](double a, double b) { return a - 2 * b; }); break;
        case 3: v[i].Set(3, vj); ap([](double, double b) { return 3 * b; }); break;
        case 4: v[i] *= vj; ap([](double a, double b) { return a * b; }); break;
        case 5: v[i] = vj; ap([](double, double b) { return b; }); break;
        case 6: Add(2.0, (const VectorView<double>&)v[i], 1.0, vj, -1.0, VectorView<double>(v[(i + 1) % 3])); { D z = m[(i + 1) % 3]; for (int k = 0; k < 3; ++k) { z[k] = 2 * m[i][k] + mj[k] - z[k]; } m[(i + 1) % 3] = z; } break;
        case 7: { D z = map2(m[i], mj, [](double a, double b) { return a - b; }); v[(i + 2) % 3] = v[i] - v[j]; m[(i + 2) % 3] = z; w.begin(); break; }
        case 8: v[i] *= 0.5; for (double& x : m[i]) { x *= 0.5; } break;
        case 9: v[i] += 1.0; for (double& x : m[i]) { x += 1; } break;
        case 10: { D k = m[i]; auto t = v[i].GetSubVector({2, 0, 1}); v[i] = t; m[i] = {k[2], k[0], k[1]}; break; }
        }
        mc::Hash h; for (int k = 0; k < 3; ++k) { same_vec(v[k], m[k], mc::S("v", k)); h.c(m[k]); }
        mc::state(h);
        MC_STEP("op ", op, " on v", i, ",v", j);
    }
}
// lengths at which an implementation might change its algorithm
MC_SCENARIO(large, 4)
{
    bool integer = mc::flag(), view = mc::flag();
    int n = mc::pick({255, 256, 257, 513, 1000, 1023, 1024, 1025, 4097, 10001, 65537}), op = mc::choose(NBIN + NUN);
    D a = iramp(n, 1), b = iramp(n, 2);
    for (double& v : a) { if (v == 0) { v = 3; } }
    static const double P[] = {1, -2, 4, 0.5}; for (double& v : b) { v = integer ? (v == 0 ? -1 : v) : P[((int)v + 8) % 4]; }
    mc::state(mc::Hash().u(integer).u(view).u(op).u(n).u(61));
    if (op < NBIN) { if (integer) { binary<int>(op, a, b, view); } else { binary<double>(op, a, b, view); } }
    else { if (integer) { unary<int>(op - NBIN, a, view); } else { unary<double>(op - NBIN, a, view); } }
    const Vector<double> x = vec(a); const VectorView<double>& xv = x;
    for (int p : {0, n / 3, n - 1})                     // one entry stands out
    {
        D c = a; c[p] = -999; const Vector<double> y = vec(c); const VectorView<double>& yv = y;
        MC_CHECK(!(xv == yv) && !(yv == xv), "vectors that differ at ", p, " of ", n, " are equal"); MC_CHECK(Min(yv) == -999 && AbsMax(yv) == 999, "extrema at ", p, " of ", n);
        c[p] = 0.125; const Vector<double> z = vec(c); const VectorView<double>& zv = z; MC_CHECK(AbsMin(zv) == 0.125, "least entry at ", p, " of ", n);
    }
}

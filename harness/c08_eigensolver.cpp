// C08: symmetric eigenproblems: eigenpairs, order, count, reuse of one solver.
#include "lin.hpp"
using namespace lin;
namespace
{
typedef long double LD;
std::vector<double> oracle(const M& m)
{
    int n = m.r; std::vector<LD> a(n * n); double sc = 0; for (double v : m.a) { sc = std::max(sc, std::fabs(v)); } if (sc == 0) { sc = 1; }
    for (int i = 0; i < n * n; ++i) { a[i] = (LD)m.a[i] / sc; }
    for (int sweep = 0; sweep < 100; ++sweep)
    {
        LD off = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { off += a[i * n + j] * a[i * n + j]; }
        if (off < 1e-40L) { break; }
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q)
            {
                LD g = a[p * n + q]; if (fabsl(g) < 1e-30L) { continue; }
                LD th = (a[q * n + q] - a[p * n + p]) / (2 * g), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(1 + th * th)), c = 1 / sqrtl(1 + t * t), s = c * t;
                for (int k = 0; k < n; ++k) { LD x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
                for (int k = 0; k < n; ++k) { LD x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
            }
    }
    std::vector<double> w; for (int i = 0; i < n; ++i) { w.push_back((double)(a[i * n + i] * sc)); }
    std::sort(w.begin(), w.end());
    return w;
}
void check(const M& m, double tol, int maxv, const EigenPair& e, const std::vector<double>* ow = nullptr)
{
    int n = m.r;
    auto want = ow ? *ow : oracle(m);
    double sc = 0; for (double v : m.a) { sc = std::max(sc, std::fabs(v)); }
    double eps = 1e-12 * n * sc;
    const auto& w = e.first; const auto& v = e.second;
    int k = v.Cols();
    std::string ctx = mc::S(" (", m.str(), " rel_tol ", tol, " max ", maxv, ")");
    MC_CHECK(v.Rows() == n, "eigenvectors have ", v.Rows(), " rows", ctx);
    MC_CHECK(k >= 1 && k <= n && (int)w.size() >= k && (int)w.size() <= n, k, " eigenvectors, ", w.size(), " eigenvalues", ctx);
    for (size_t i = 0; i < w.size(); ++i) { MC_CHECK(std::fabs(w[i] - want[i]) <= eps, "eigenvalue ", i, " is ", w[i], " expected ", want[i], ctx); MC_CHECK(i == 0 || w[i - 1] <= w[i], "eigenvalues not ascending: ", w, ctx); }
    int lim = maxv < 0 ? n : std::max(1, std::min(maxv, n));
    double cut = tol * want.back();
    int lo = 1, hi = 1;   // bounds on the count, ambiguous only where an eigenvalue is within rounding of the cut
    while (lo < lim && want[lo] <= cut - eps) { ++lo; }
    while (hi < lim && want[hi] <= cut + eps) { ++hi; }
    MC_CHECK(k >= lo && k <= hi, k, " eigenvectors returned, expected between ", lo, " and ", hi, ctx);
    for (int a = 0; a < k; ++a)
    {
        std::vector<double> x; for (int i = 0; i < n; ++i) { x.push_back(v(i, a)); }
        auto y = m.mul(x);
        for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(y[i] - w[a] * x[i]) <= 1e-11 * n * sc, "A v = lambda v violated by eigenvector ", a, ctx, " v=", x); }
        for (int b = a; b < k; ++b)
        {
            double s = 0; for (int i = 0; i < n; ++i) { s += x[i] * v(i, b); }
            MC_CHECK(std::fabs(s - (a == b)) < 1e-10 * n, "eigenvectors ", a, " and ", b, " have inner product ", s, ctx);
        }
    }
}
EigenPair junk(int kind) { EigenPair e; if (kind) { e.first.assign(kind * 3, nan()); e.second = DenseMatrix(kind + 1, 2 * kind, std::vector<double>((kind + 1) * 2 * kind, nan())); } return e; }
const double TOL[] = {0., 0.1, 0.5, 1., 1e-10};
void solve(EigenSolver& s, const M& m, double tol, int maxv, int form, EigenPair& e)
{
    auto d = dense(m);
    if (form == 0) { e = s.Solve(d, tol, maxv); }
    else if (form == 1) { s.Solve(d, tol, maxv, e); }
    else { M st = m; for (size_t i = 0; i < st.a.size(); ++i) { st.st[i] = st.a[i] != 0; } auto sp = sparse(st, form % 3); if (form == 2) { e = s.Solve(sp, tol, maxv); } else { s.Solve(sp, tol, maxv, e); } same_sparse(sp, st, "input matrix", true); }
    same_dense(d, m, "input matrix");
    MC_STEP("Solve ", m.str(), " rel_tol ", tol, " max ", maxv, " form ", form, " -> ", e.second.Cols());
}
M symmetric(int n, const std::vector<double>& al)
{ M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double v = mc::pick(al); m.set(i, j, v); m.set(j, i, v); } return m; }
}
MC_SCENARIO(every_matrix, 8)
{
    int n = 1 + mc::choose(mc::thorough() ? 5 : 4);
    std::vector<double> al = n <= 2 ? std::vector<double> {0, 1, -1, 2, -3, 0.5, 7, 1e-3} : n == 3 ? std::vector<double> {0, 1, -1, 2} : n == 4 ? std::vector<double> {0, 1, -1} : std::vector<double> {0, 1};
    if (n == 4 && !mc::thorough()) { al = {0, -1}; }
    M m = symmetric(n, al);
    double tol = n <= 3 ? TOL[mc::choose(5)] : 1; int maxv = n <= 3 ? mc::choose(n + 4) - 1 : -1; if (maxv == n + 2) { maxv = n + 50; }
    mc::state(mc::Hash().u(m.hash()).d(tol).u(maxv));
    int form = m.nnz() % 4;
    EigenSolver s; EigenPair e = junk(n <= 2 ? mc::choose(3) : m.r % 3);
    solve(s, m, tol, maxv, form, e);
    check(m, tol, maxv, e);
}
MC_SCENARIO(families, 6)
{
    std::vector<int> ns = {1, 2, 3, 5, 8, 13, 32, 33};
    if (mc::thorough()) { ns.push_back(48); ns.push_back(70); }
    int n = mc::pick(ns), f = mc::choose(8), t = mc::choose(4), lim = mc::choose(4), form = mc::choose(4), sc = mc::choose(3);
    M m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j)
        {
            double v = 0;
            switch (f)
            {
            case 0: v = i == j ? 2 : i == j + 1 ? -1 : 0; break;                       // Laplacian
            case 1: v = i == j ? (i == 0 || i == n - 1 ? 1 : 2) : i == j + 1 ? -1 : 0; if (n == 1) { v = 0; } break;  // singular
            case 2: v = i == j ? i + 1 : 0; break;                                     // diagonal
            case 3: v = i == j ? 1 : 0; break;                                         // identity
            case 4: v = 1; break;                                                      // rank one
            case 5: v = cell(i, j, 3); break;                                          // indefinite
            case 6: v = i == j ? -(i + 1) * (i + 1) : 0.25; break;                      // negative definite
            case 7: v = (i / 2 == j / 2) ? (i == j ? 3 : 1) : 0; break;                 // 2x2 blocks
            }
            m.set(i, j, v); m.set(j, i, v);
        }
    double s = sc == 0 ? 1 : sc == 1 ? std::ldexp(1, -70) : std::ldexp(1, 100);
    for (double& v : m.a) { v *= s; }
    double tol = TOL[t]; int maxv = lim == 0 ? -1 : lim == 1 ? 1 : lim == 2 ? (n + 1) / 2 : n;
    mc::state(mc::Hash().u(m.hash()).d(tol).u(maxv));
    EigenSolver sol; EigenPair e = junk(form);
    solve(sol, m, tol, maxv, form, e);
    check(m, tol, maxv, e);
}
// one solver, any sequence of sizes: identical to a fresh solver
MC_SCENARIO(reuse, 4)
{
    static const std::vector<M> pool = [] { std::vector<M> p; static const int N[] = {3, 1, 5, 2, 9, 20}; for (int k = 0; k < 6; ++k) { int n = N[k]; M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double v = cell(i, j, k) + (i == j ? 15 * (i + 1) : 0); m.set(i, j, v); m.set(j, i, v); } p.push_back(m); } return p; }();
    static const std::vector<std::vector<double>> want = [] { std::vector<std::vector<double>> w; for (auto& m : pool) { w.push_back(oracle(m)); } return w; }();
    static const std::vector<EigenPair> fresh = [] { std::vector<EigenPair> f; for (auto& m : pool) for (int o = 0; o < 3; ++o) { EigenSolver s; f.push_back(s.Solve(dense(m), o == 1 ? 0.5 : 1.0, o == 2 ? 2 : -1)); } return f; }();
    int depth = mc::thorough() ? 5 : 4, np = 6;
    EigenSolver s, t; EigenPair e;
    for (int k = 0; k < depth; ++k)
    {
        int which = mc::choose(np), opt = mc::choose(3);
        const M& m = pool[which];
        double tol = opt == 0 ? 1.0 : opt == 1 ? 0.5 : 1.0; int maxv = opt == 2 ? 2 : -1;
        if (opt == 1 && k == 1) { t = s; EigenSolver c(t); s = c; }
        if (opt == 2 && k == 2) { EigenSolver c(std::move(s)); s = c; }
        solve(s, m, tol, maxv, (which + k) % 4, e);
        check(m, tol, maxv, e, &want[which]);
        const EigenPair& w = fresh[which * 3 + opt];
        MC_CHECK(w.first.size() == e.first.size() && w.second.Cols() == e.second.Cols(), "a reused solver returns other counts than a fresh one");
        for (size_t i = 0; i < w.first.size(); ++i) { MC_CHECK(std::fabs(w.first[i] - e.first[i]) <= 1e-12 * 600, "a reused solver returns eigenvalue ", e.first[i], ", a fresh one ", w.first[i]); }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < w.second.Cols(); ++j) { MC_CHECK(std::fabs(w.second(i, j) - e.second(i, j)) <= 1e-9, "a reused solver returns another eigenvector ", j); }
        mc::state(mc::Hash().u(k).u(which).u(opt).c(e.first));
    }
}
// sizes at which an implementation might change its algorithm or its workspace: eigenvalues known in closed form
MC_SCENARIO(large, 3)
{
    int n = mc::pick({70, 130, 257}), f = mc::choose(3), t = mc::choose(3), lim = mc::choose(4), form = mc::choose(2) * 3;
    M m(n, n); std::vector<double> w;
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double v = f == 0 ? (i == j ? 2 : i == j + 1 ? -1 : 0) : f == 1 ? (i == j ? (i * 37) % n + 1 : 0) : (i == j ? n + 3 : 1); m.set(i, j, v); m.set(j, i, v); }
    for (int k = 0; k < n; ++k) { w.push_back(f == 0 ? 2 - 2 * std::cos(M_PI * (k + 1) / (n + 1)) : f == 1 ? k + 1 : k == n - 1 ? 2 * n + 2 : n + 2); }
    double tol = t == 0 ? 1 : t == 1 ? 0.25 : 0; int maxv = lim == 0 ? -1 : lim == 1 ? 1 : lim == 2 ? n / 2 : n + 5;
    mc::state(mc::Hash().u(m.hash()).d(tol).u(maxv).u(5));
    EigenSolver sol; EigenPair e = junk(form);
    if (lim == 2) { M s(2, 2); s.set(0, 0, 1); s.set(1, 1, 4); solve(sol, s, 1, -1, 0, e); }
    solve(sol, m, tol, maxv, form, e);
    check(m, tol, maxv, e, &w);
}

// C07: SVD, QR, inversion against their defining equations.
#include "lin.hpp"
using namespace lin;
namespace
{
typedef long double LD;
M table(const DenseMatrix& d) { M m(d.Rows(), d.Cols()); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { m.set(i, j, d(i, j)); } return m; }
DenseMatrix junk(int r, int c) { return DenseMatrix(r, c, std::vector<double>(r * c, nan())); }
double norm(const M& a) { double s = 0; for (double v : a.a) { s = std::max(s, std::fabs(v)); } return s; }
// singular values by one-sided Jacobi in extended precision
std::vector<double> oracle_sv(const M& a0)
{
    M a = a0.r >= a0.c ? a0 : a0.T();
    int m = a.r, n = a.c;
    std::vector<LD> w(m * n); double sc = norm(a); if (sc == 0) { sc = 1; }
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { w[j * m + i] = (LD)a(i, j) / sc; }
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        LD off = 0;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q)
            {
                LD al = 0, be = 0, ga = 0;
                for (int i = 0; i < m; ++i) { al += w[p * m + i] * w[p * m + i]; be += w[q * m + i] * w[q * m + i]; ga += w[p * m + i] * w[q * m + i]; }
                if (ga * ga <= 1e-36L * al * be || ga == 0) { continue; }
                off = 1;
                LD z = (be - al) / (2 * ga), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), c = 1 / sqrtl(1 + t * t), s = c * t;
                for (int i = 0; i < m; ++i) { LD x = w[p * m + i], y = w[q * m + i]; w[p * m + i] = c * x - s * y; w[q * m + i] = s * x + c * y; }
            }
        if (off == 0) { break; }
    }
    std::vector<double> sv;
    for (int j = 0; j < n; ++j) { LD s = 0; for (int i = 0; i < m; ++i) { s += w[j * m + i] * w[j * m + i]; } sv.push_back((double)(sqrtl(s) * sc)); }
    std::sort(sv.rbegin(), sv.rend());
    return sv;
}
void orthonormal(const M& q, int k, const std::string& what)
{
    for (int a = 0; a < k; ++a) for (int b = a; b < k; ++b)
        {
            double s = 0; for (int i = 0; i < q.r; ++i) { s += q(i, a) * q(i, b); }
            MC_CHECK(std::fabs(s - (a == b)) < 1e-11 * (q.r + 1), what, ": columns ", a, " and ", b, " have inner product ", s);
        }
}
void check_svd(const M& m, const std::vector<double>& s, const M& u)
{
    int k = std::min(m.r, m.c);
    auto want = oracle_sv(m);
    double sc = norm(m), tol = 1e-12 * sc * (m.r + m.c);
    MC_CHECK((int)s.size() == k, "SVD returns ", s.size(), " singular values");
    for (int i = 0; i < k; ++i)
    {
        MC_CHECK(i == 0 || s[i] <= s[i - 1], "singular values not in non-increasing order: ", s);
        MC_CHECK(s[i] >= 0 && std::fabs(s[i] - want[i]) <= tol, "singular value ", i, " is ", s[i], " expected ", want[i]);
    }
    MC_CHECK(u.r == m.r && u.c >= k, "left singular vectors have shape ", u.r, "x", u.c);
    orthonormal(u, k, "left singular vectors");
    // A A^T u = s^2 u
    for (int a = 0; a < k; ++a)
    {
        std::vector<double> ua; for (int i = 0; i < m.r; ++i) { ua.push_back(u(i, a)); }
        auto t = m.mul(m.T().mul(ua));
        for (int i = 0; i < m.r; ++i) { MC_CHECK(std::fabs(t[i] - s[a] * s[a] * ua[i]) <= 1e-11 * sc * sc * (m.r + m.c) * (m.r + m.c), "A A^T u = s^2 u violated by vector ", a, " of ", m.str(), " s=", s); }
    }
}
void check_qr(const M& m, const M& q)
{
    int k = std::min(m.r, m.c);
    MC_CHECK(q.r == m.r && q.c == k, "Q has shape ", q.r, "x", q.c, " for a ", m.r, "x", m.c, " matrix");
    orthonormal(q, k, "Q");
    M p = q.mul(q.T().mul(m));
    double sc = norm(m);
    for (size_t i = 0; i < p.a.size(); ++i) { MC_CHECK(std::fabs(p.a[i] - m.a[i]) <= 1e-11 * sc * (m.r + m.c), "the columns of Q do not span those of ", m.str(), ": Q=", q.str()); }
}
// exact determinant by cofactor-free fraction-free elimination (integer entries)
LD det(const M& m)
{
    int n = m.r; std::vector<LD> a(n * n); for (int i = 0; i < n * n; ++i) { a[i] = m.a[i]; }
    LD prev = 1; int sign = 1;
    for (int k = 0; k < n - 1; ++k)
    {
        if (a[k * n + k] == 0) { int r = k + 1; while (r < n && a[r * n + k] == 0) { ++r; } if (r == n) { return 0; } for (int j = 0; j < n; ++j) { std::swap(a[k * n + j], a[r * n + j]); } sign = -sign; }
        for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) { a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev; }
        prev = a[k * n + k];
    }
    return n ? sign * a[n * n - 1] : 1;
}
void check_inv(const M& m, const M& inv)
{
    MC_CHECK(inv.r == m.r && inv.c == m.c, "inverse has shape ", inv.r, "x", inv.c);
    M p = inv.mul(m), p2 = m.mul(inv);
    double tol = 1e-12 * (1 + norm(m) * norm(inv)) * m.r;
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.r; ++j)
        { MC_CHECK(std::fabs(p(i, j) - (i == j)) <= tol && std::fabs(p2(i, j) - (i == j)) <= tol, "inverse times matrix is not the identity at (", i, ",", j, ") for ", m.str(), ": ", p.str()); }
}
void forms(const M& m, int what, int prev)
{
    const DenseMatrix a = dense(m);
    DenseMatrix o = prev == 0 ? DenseMatrix() : prev == 1 ? junk(m.r, m.c) : junk(m.c + 1, 2);
    DenseMatrix b = a;
    if (what == 0) { auto s = a.SVD(o); check_svd(m, s, table(o)); auto s2 = b.SVD(); check_svd(m, s2, table(b)); MC_CHECK(s == s2 && (m.r < m.c || o == b), "SVD forms differ"); }
    else if (what == 1) { a.QR(o); check_qr(m, table(o)); b.QR(); check_qr(m, table(b)); }
    else { a.Invert(o); check_inv(m, table(o)); b.Invert(); check_inv(m, table(b)); }
    same_dense(a, m, "decomposed matrix");
    static const char* W[] = {"SVD", "QR", "Invert"};
    MC_STEP(W[what], " of ", m.str());
}
}
MC_SCENARIO(every_matrix, 8)
{
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {2, 4}, {4, 2}};
    auto sh = mc::pick(shapes);
    int cells = sh.first * sh.second, what = mc::choose(3);
    if (what == 2 && sh.first != sh.second) { mc::prune(); }
    std::vector<double> al = cells <= 4 ? std::vector<double> {0, 1, -1, 2, -3, 0.5, 7} : cells <= 6 ? std::vector<double> {0, 1, -1, 2} : cells <= 8 || !mc::thorough() ? std::vector<double> {0, 1, -2} : std::vector<double> {0, 1, -1, 2};
    M m(sh.first, sh.second);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { m.set(i, j, mc::pick(al)); }
    if (what == 2) { M d = m; for (double& v : d.a) { v *= 2; } if (det(d) == 0) { mc::prune(); } }
    mc::state(mc::Hash().u(m.hash()).u(what));
    forms(m, what, m.nnz() % 3);
}
MC_SCENARIO(binary_matrices, 8)
{
    static const std::vector<std::pair<int, int>> shapes = {{4, 4}, {3, 4}, {4, 3}, {3, 5}, {5, 3}, {2, 6}, {6, 2}};
    auto sh = mc::pick(shapes);
    if (!mc::thorough() && sh.first * sh.second > 12 && (sh.first != 4)) { mc::prune(); }
    int what = mc::choose(3);
    if (what == 2 && sh.first != sh.second) { mc::prune(); }
    M m(sh.first, sh.second);
    double base = what == 1 ? -2 : 1;
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { m.set(i, j, mc::choose(2) ? base : 0); }
    if (what == 2 && det(m) == 0) { mc::prune(); }
    mc::state(mc::Hash().u(m.hash()).u(what));
    forms(m, what, what);
}
MC_SCENARIO(families, 6)
{
    std::vector<int> n = {1, 2, 3, 7, 8, 16, 33};
    if (mc::thorough()) { n.push_back(40); n.push_back(65); }
    int r = mc::pick(n), c = mc::pick(n), what = mc::choose(3), f = mc::choose(NFAM), sc = mc::choose(3), prev = mc::choose(3);
    if (what == 2 && r != c) { mc::prune(); }
    M m = family(f, r, c, 3);
    if (what == 2) { for (int i = 0; i < r; ++i) { m.set(i, i, 10.0 * r * (i % 2 ? -1 : 1)); } }
    double s = sc == 0 ? 1 : sc == 1 ? std::ldexp(1, -60) : std::ldexp(1, 70);
    for (double& v : m.a) { v *= s; }
    mc::state(mc::Hash().u(r).u(c).u(what).u(f).u(sc));
    forms(m, what, prev);
}
MC_SCENARIO(degenerate, 2)
{
    int n = mc::choose(4), what = mc::choose(3);
    DenseMatrix a(0, n), b(n, 0), z(0, 0);
    if (what == 0) { MC_CHECK(a.SVD().empty() && b.SVD().empty() && z.SVD().empty(), "singular values of an empty matrix"); }
    else if (what == 1) { b.QR(); MC_CHECK(b.Rows() == n && b.Cols() == 0, "Q of a matrix without columns"); z.QR(); a.QR(); }
    else { z.Invert(); MC_CHECK(z.Rows() == 0 && z.Cols() == 0, "inverse of the empty matrix"); }
    mc::state(mc::Hash().u(n).u(what));
    MC_STEP("empty ", what, " ", n);
}
// the outcome does not depend on earlier decompositions
MC_SCENARIO(histories, 4)
{
    static const std::vector<M> pool = [] { std::vector<M> p; for (int k = 0; k < 6; ++k) { static const int R[] = {3, 2, 4, 1, 5, 3}, C[] = {3, 4, 2, 1, 5, 1}; M m = family(2, R[k], C[k], k); for (int i = 0; i < std::min(m.r, m.c); ++i) { m(i, i) += 20; } p.push_back(m); } return p; }();
    static std::vector<std::vector<double>> first(18);
    int depth = mc::thorough() ? 5 : 4;
    DenseMatrix d;
    for (int s = 0; s < depth; ++s)
    {
        int k = mc::choose(6), what = mc::choose(3);
        if (what == 2 && pool[k].r != pool[k].c) { mc::prune(); }
        std::vector<double> res;
        const DenseMatrix a = dense(pool[k]);
        if (what == 0) { res = a.SVD(d); M u = table(d); check_svd(pool[k], res, u); for (int i = 0; i < u.r; ++i) for (int j = 0; j < std::min(u.r, u.c); ++j) { res.push_back(u(i, j)); } }
        else if (what == 1) { a.QR(d); check_qr(pool[k], table(d)); res = table(d).a; }
        else { a.Invert(d); check_inv(pool[k], table(d)); res = table(d).a; }
        std::vector<double> fresh;
        { DenseMatrix e = dense(pool[k]); if (what == 0) { fresh = e.SVD(); M u = table(e); for (int i = 0; i < u.r; ++i) for (int j = 0; j < std::min(u.r, u.c); ++j) { fresh.push_back(u(i, j)); } } else { if (what == 1) { e.QR(); } else { e.Invert(); } fresh = table(e).a; } }
        MC_CHECK(res.size() == fresh.size(), "result shape depends on history");
        for (size_t i = 0; i < res.size(); ++i) { MC_CHECK(std::fabs(res[i] - fresh[i]) <= 1e-13 * (1 + std::fabs(fresh[i])), "decomposition ", what, " of matrix ", k, " depends on earlier ones"); }
        mc::state(mc::Hash().u(s).u(k).u(what).c(res));
        MC_STEP("decomposition ", what, " of matrix ", k);
    }
}

// sizes far apart in one process, smallest first (the first scenario each worker runs: earlier calls must not size anything)
MC_SCENARIO(a_growing_sizes, 3)
{
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {2, 70}, {70, 2}, {40, 40}, {3, 3}, {90, 90}};
    int what = mc::choose(3), depth = mc::thorough() ? 3 : 2;
    for (int s = 0; s < depth; ++s)
    {
        auto sh = mc::pick(shapes);
        if (what == 2 && sh.first != sh.second) { mc::prune(); }
        M m = family(9, sh.first, sh.second, 3);
        for (int i = 0; i < std::min(m.r, m.c); ++i) { m.set(i, i, 10.0 * m.r * (i % 2 ? -1 : 1)); }
        const DenseMatrix a = dense(m);
        DenseMatrix o;
        if (what == 0) { auto v = a.SVD(o); check_svd(m, v, table(o)); }
        else if (what == 1) { a.QR(o); check_qr(m, table(o)); }
        else { a.Invert(o); check_inv(m, table(o)); }
        mc::state(mc::Hash().u(what).u(s).u(m.r).u(m.c));
        MC_STEP("decomposition ", what, " of a ", m.r, "x", m.c, " matrix");
    }
}

// sizes at which an implementation might change its algorithm or its workspace
MC_SCENARIO(large, 3)
{
    static const int R[] = {130, 260, 4, 130, 600, 3, 257}, C[] = {130, 4, 260, 65, 2, 600, 257};
    int k = mc::choose(7), what = mc::choose(3), f = mc::pick({1, 9, 2});
    if (what == 2 && R[k] != C[k]) { mc::prune(); }
    if (what == 0 && k == 6) { mc::prune(); }
    if (what == 1 && k == 6 && f != 9) { mc::prune(); }
    M m = family(f, R[k], C[k], 3);
    if (what == 2 || f != 2) { for (int i = 0; i < std::min(m.r, m.c); ++i) { m.set(i, i, 10.0 * m.r * (i % 2 ? -1 : 1)); } }
    mc::state(mc::Hash().u(k).u(what).u(f).u(71));
    const DenseMatrix a = dense(m);
    DenseMatrix o;
    if (what == 0) { auto v = a.SVD(o); check_svd(m, v, table(o)); }
    else if (what == 1) { a.QR(o); check_qr(m, table(o)); }
    else { a.Invert(o); check_inv(m, table(o)); }
    same_dense(a, m, "decomposed matrix");
    MC_STEP("decomposition ", what, " of a ", m.r, "x", m.c, " matrix");
}

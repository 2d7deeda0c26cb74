// Shared by C13-C15: exact reference iterates in extended precision, integer definiteness tests.
#ifndef KRYLOV_HPP
#define KRYLOV_HPP
#include "lin.hpp"
#include "solvers.hpp"
#include <fcntl.h>
#include <unistd.h>
namespace kry
{
using namespace lin;
typedef long double ld;
typedef std::vector<ld> LV;
inline LV lmul(const M& a, const LV& x) { LV y(a.r, 0); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { y[i] += (ld)a(i, j) * x[j]; } return y; }
inline ld dot(const LV& a, const LV& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return s; }
inline LV tol(const std::vector<double>& v) { return LV(v.begin(), v.end()); }
inline LV resid(const M& a, const std::vector<double>& b, const std::vector<double>& x) { LV q = lmul(a, tol(x)); for (size_t i = 0; i < q.size(); ++i) { q[i] = (ld)b[i] - q[i]; } return q; }
// determinant of the leading k x k block (values are small dyadic numbers: exact in long double)
inline ld det(const M& a, int k)
{
    std::vector<LV> m(k, LV(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { m[i][j] = a(i, j); }
    ld d = 1;
    for (int p = 0; p < k; ++p)
    {
        int q = p; for (int i = p; i < k; ++i) { if (fabsl(m[i][p]) > fabsl(m[q][p])) { q = i; } }
        if (fabsl(m[q][p]) < 1e-13L) { return 0; }
        if (q != p) { std::swap(m[p], m[q]); d = -d; }
        d *= m[p][p];
        for (int i = p + 1; i < k; ++i) { ld f = m[i][p] / m[p][p]; for (int j = p; j < k; ++j) { m[i][j] -= f * m[p][j]; } }
    }
    return d;
}
inline bool spd(const M& a) { for (int k = 1; k <= a.r; ++k) { if (det(a, k) <= 1e-9L) { return false; } } return true; }
inline LV solve(const M& a, LV b)
{
    int n = a.r; std::vector<LV> m(n, LV(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m[i][j] = a(i, j); }
    for (int p = 0; p < n; ++p)
    {
        int q = p; for (int i = p; i < n; ++i) { if (fabsl(m[i][p]) > fabsl(m[q][p])) { q = i; } }
        std::swap(m[p], m[q]); std::swap(b[p], b[q]);
        for (int i = 0; i < n; ++i) if (i != p) { ld f = m[i][p] / m[p][p]; for (int j = p; j < n; ++j) { m[i][j] -= f * m[p][j]; } b[i] -= f * b[p]; }
    }
    for (int p = 0; p < n; ++p) { b[p] /= m[p][p]; }
    return b;
}
inline M symmetric(int n, const std::vector<double>& diag, const std::vector<double>& off)
{
    M m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double v = i == j ? mc::pick(diag) : mc::pick(off); if (i == j || v != 0) { m.set(i, j, v); m.set(j, i, v); } }
    return m;
}
inline ld norm(const LV& v) { return sqrtl(dot(v, v)); }
inline ld scale(const M& a) { ld s = 0; for (int i = 0; i < a.r; ++i) { ld t = 0; for (int j = 0; j < a.c; ++j) { t += fabsl(a(i, j)); } s = std::max(s, t); } return s; }

// an operator that counts its applications; solvers are run on it
struct Counted : Operator
{
    const Operator* op; mutable long n = 0;
    explicit Counted(const Operator& o) : Operator(o.Rows(), o.Cols()), op(&o) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { ++n; op->Mult(in, out); }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { ++n; op->MultAT(in, out); }
};
// a preconditioner that refines the guess it is given: from zero it is the action of P (an iterative solver behaves like this)
struct Refining : Operator
{
    M A, P;
    Refining(const M& a, const M& p) : Operator(p.r, p.c), A(a), P(p) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override
    {
        auto o = stdv(out), q = A.mul(o); for (size_t i = 0; i < q.size(); ++i) { q[i] = in[i] - q[i]; }
        q = P.mul(q); for (size_t i = 0; i < q.size(); ++i) { out[i] = o[i] + q[i]; }
    }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { Mult(in, out); }
};
// the k-th (preconditioned) minimiser over x0 + span{(PA)^i P r0, i<k}:  energy=true: A-norm of the error (CG),
// else: P-norm of the residual (MINRES).  returned as the Krylov solution; dim = dimension actually reached.
inline std::vector<LV> krylov_minimisers(const M& A, const M* P, const std::vector<double>& b, const std::vector<double>& x0, int kmax, bool energy)
{
    int n = A.r; std::vector<LV> out; LV x(tol(x0)); out.push_back(x);
    LV r = resid(A, b, x0); ld r0 = norm(r);
    auto prec = [&](const LV& v) { return P ? lmul(*P, v) : v; };
    std::vector<LV> Q, AQ, PAQ;                   // directions, conjugate in the inner product of the minimisation
    LV u = prec(r);
    for (int k = 0; k < kmax; ++k)
    {
        LV d = u;
        ld before = norm(d);
        auto ip = [&](const LV& dd, size_t q) { LV ad = lmul(A, dd); return energy ? dot(dd, AQ[q]) : dot(ad, PAQ[q]); };
        for (int pass = 0; pass < 3; ++pass) for (size_t q = 0; q < Q.size(); ++q) { ld c = ip(d, q); for (int i = 0; i < n; ++i) { d[i] -= c * Q[q][i]; } }
        LV ad = lmul(A, d); ld nn = energy ? dot(d, ad) : dot(ad, prec(ad));
        if (r0 == 0 || before == 0 || norm(d) <= 1e-12L * before || nn <= 0) { out.push_back(x); continue; }
        ld s = 1 / sqrtl(nn); for (ld& t : d) { t *= s; }
        ad = lmul(A, d); LV pad = prec(ad);
        Q.push_back(d); AQ.push_back(ad); PAQ.push_back(pad);
        ld a = energy ? dot(d, r) : dot(pad, r);
        for (int i = 0; i < n; ++i) { x[i] += a * d[i]; r[i] -= a * ad[i]; }
        out.push_back(x);
        u = prec(ad);
        ld un = norm(u); if (un > 0) { for (ld& t : u) { t /= un; } }
    }
    return out;
}
// captures what f prints to stdout
inline std::string printed(const std::function<void()>& f)
{
    static int fd = -1; if (fd < 0) { fd = open((mc::scratch() + "/out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); }
    fflush(stdout); std::cout.flush();
    int save = dup(1);
    if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET);
    dup2(fd, 1);
    std::string err; bool bad = false;
    f();
    fflush(stdout); std::cout.flush();
    dup2(save, 1); close(save);
    std::string s; char buf[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t k; (k = read(fd, buf, sizeof buf)) > 0;) { s.append(buf, k); }
    return s;
}
}
#endif

// C13: conjugate gradients.  Every small SPD system, start, limit and tolerance; iterates against the exact minimisers
// over the Krylov spaces, computed in extended precision.
#include "krylov.hpp"
#include <memory>
using namespace kry;
namespace
{
struct Tol { double rel, abs; };
const std::vector<Tol> TOLS = {{1e-16, 1e-16}, {1e-8, 0}, {0, 1e-7}, {0.25, 0}, {0, 0.5}, {1e-3, 1.5}};
// one solve on a solver configured with (A, P, it, t); x is in/out
void judge(const M& A, const M* P, const std::vector<double>& b, const std::vector<double>& x0, const std::vector<double>& x, int performed, long applied, int it, Tol t, const std::vector<LV>& ref, const std::string& what)
{
    int n = A.r;
    for (double v : x) { MC_CHECK(std::isfinite(v), what, ": the result is not a number"); }
    MC_CHECK(performed >= 0 && performed <= it, what, ": reports ", performed, " iterations, ", it, " are allowed");
    MC_CHECK(applied <= it + 2, what, ": applies the operator ", applied, " times, ", it, " iterations are allowed");
    LV r0 = resid(A, b, x0), r = resid(A, b, x);
    LV z0 = P ? lmul(*P, r0) : r0, z = P ? lmul(*P, r) : r;
    ld m0 = sqrtl(dot(r0, z0)), m = sqrtl(std::max((ld)0, dot(r, z)));
    ld xs = 1; for (double v : x) { xs = std::max(xs, fabsl((ld)v)); } for (double v : x0) { xs = std::max(xs, fabsl((ld)v)); } for (double v : b) { xs = std::max(xs, fabsl((ld)v)); }
    ld floor = 1e-13L * n * (scale(A) + 1) * xs * (P ? 1 + sqrtl(scale(*P)) : 1) * 4;
    ld goal = std::max((ld)t.rel * m0, (ld)t.abs) * (1 + 1e-6L) + floor;
    if (performed < it || it >= 4 * n + 20) { MC_CHECK(m <= goal, what, ": stopped after ", performed, " of ", it, " iterations with residual ", (double)m, ", the tolerance asks for ", (double)goal); }
    // the iterate of the reported step (exact until convergence)
    if (performed <= (n <= 4 ? n : 4) && performed < (int)ref.size())     // later steps lose accuracy to rounding
    {
        const LV& e = ref[performed]; LV d(n); for (int i = 0; i < n; ++i) { d[i] = e[i] - x[i]; }
        ld en = sqrtl(std::max((ld)0, dot(d, lmul(A, d))));
        LV q(n); LV ex = ref.back(); for (int i = 0; i < n; ++i) { q[i] = ex[i] - x0[i]; }
        ld e0 = sqrtl(std::max((ld)0, dot(q, lmul(A, q))));
        MC_CHECK(en <= 1e-7L * e0 + floor, what, ": after ", performed, " iterations the result is not the iterate of that step (", (double)(en / (e0 + floor)), " of the initial error away)");
    }
}
void cases(const M& A, const M* P, const std::vector<double>& b, const std::vector<double>& x0, bool few)
{
    int n = A.r;
    auto sa = sparse(A); SparseMatrix<double> sp; if (P) { sp = sparse(*P); }
    auto ref = krylov_minimisers(A, P, b, x0, n + 1, true);
    std::vector<int> its; for (int k = 0; k <= n + 1; ++k) { its.push_back(k); } its.push_back(1000);
    if (few) { its = {0, 1, 2, n, 200}; }
    const auto bv = vec(b);
    for (size_t ti = 0; ti < TOLS.size(); ++ti)
    {
        Tol t = TOLS[ti];
        if (few && ti > 2) { break; }
        Counted ca(sa);
        PCGSolver S = P ? PCGSolver(ca, sp, 1000, t.rel, t.abs) : PCGSolver(ca, 1000, t.rel, t.abs);
        for (int it : its)
        {
            S.SetMaxIter(it);
            ca.n = 0;
            auto x = vec(x0);
            S.Mult(bv, x);
            same_vec(bv, b, "right-hand side");
            std::string what = mc::S(P ? "PCG" : "CG", " tol ", t.rel, "/", t.abs, " max ", it);
            judge(A, P, b, x0, stdv(x), S.GetNumIterations(), ca.n, it, t, ref, what);
            if (it == its.back() || it == 1)
            {
                // fresh solver objects and the free functions give the same answer
                Vector<double> y = vec(x0);
                PCGSolver F = P ? PCGSolver(sa, sp, it, t.rel, t.abs) : PCGSolver(sa, it, t.rel, t.abs);
                F.Mult(bv, y); same_vec(y, stdv(x), what + ": a fresh solver");
                MC_CHECK(F.GetNumIterations() == S.GetNumIterations(), what, ": a fresh solver takes ", F.GetNumIterations(), " iterations, a used one ", S.GetNumIterations());
                Vector<double> w = vec(x0);
                if (P) { PCG(sa, sp, bv, VectorView<double>(w), it, t.rel, t.abs); } else { CG(sa, bv, VectorView<double>(w), it, t.rel, t.abs); }
                same_vec(w, stdv(x), what + ": the free function");
            }
        }
        // returned form (starts from a random guess)
        if (ti < 3)
        {
            auto x = P ? PCG(sa, sp, bv, 1000, t.rel, t.abs) : CG(sa, bv, 1000, t.rel, t.abs);
            MC_CHECK(x.size() == n, "returned solution has size ", x.size());
            LV r = resid(A, b, stdv(x)); ld bound = 1e-6L * (1 + norm(tol(b))) * (scale(A) + 1);
            MC_CHECK(norm(r) <= bound, "returned solution has residual ", (double)norm(r));
        }
    }
}
M prec(int kind, const M& A)
{
    M p(A.r, A.c);
    for (int i = 0; i < A.r; ++i) switch (kind)
        {
        case 1: p.set(i, i, 1); break;
        case 2: p.set(i, i, 1 / A(i, i)); break;
        case 3: p.set(i, i, i % 2 ? 4 : 0.5); break;
        default: for (int j = 0; j < A.c; ++j) { if (i == j) { p.set(i, i, 2); } else if (std::abs(i - j) == 1) { p.set(i, j, 0.5); } }
        }
    return p;
}
std::vector<double> start(int kind, const M& A, const std::vector<double>& b, const std::vector<double>& xe)
{
    int n = A.r;
    switch (kind)
    {
    case 0: return std::vector<double>(n, 0.0);
    case 1: return xe;
    case 2: return b;
    case 4: { auto v = xe; for (int i = 0; i < n; ++i) { v[i] += (i % 3 + 1) * std::ldexp(i % 2 ? -1.0 : 1.0, -20); } return v; }    // a good guess: the residual is far smaller than b
    default: return ramp(n, 3);
    }
}
void small(int n, const std::vector<double>& diag, const std::vector<double>& off, const std::vector<double>& xal)
{
    M A = symmetric(n, diag, off);
    if (!spd(A)) { mc::prune(); }
    std::vector<double> xe(n); for (double& x : xe) { x = mc::pick(xal); }
    std::vector<double> b = A.mul(xe);
    int pk = mc::choose(5), sk = mc::choose(5);
    M P = pk ? prec(pk, A) : M();
    auto x0 = start(sk, A, b, xe);
    mc::state(mc::Hash().u(A.hash()).c(b).c(x0).u(pk));
    cases(A, pk ? &P : nullptr, b, x0, false);
    MC_STEP("A=", A.str(), " b=", b, " x0=", x0, " preconditioner ", pk);
}
M big(int f, int n)
{
    M m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            double v = 0;
            switch (f)
            {
            case 0: v = i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0; break;
            case 1: v = i == j ? 1 + i % 5 : 0; break;
            case 2: v = i == j ? n + 1 : 1; break;
            case 3: v = i == j ? (i ? 2 : n + 2) : (i == 0 || j == 0) ? 1 : 0; break;
            case 4: v = i == j ? 1 : 0; break;
            case 5: v = i == j ? 6 : std::abs(i - j) == 1 ? -2 : std::abs(i - j) == 3 ? 1 : 0; break;
            case 6: v = i == j ? 1 << (i % 8) : 0; break;
            }
            if (v) { m.set(i, j, v); }
        }
    return m;
}
}
MC_SCENARIO(order_one, 4) { small(1, {0.25, 1, 2, 3, 64, 1e-3, 1e4}, {0}, {0, 1, -1, 0.5, 1000}); }
MC_SCENARIO(order_two, 5) { small(2, mc::thorough() ? std::vector<double>{1, 2, 3, 5, 8} : std::vector<double>{1, 2, 5}, {0, 1, -1, 2}, {0, 1, -2}); }
MC_SCENARIO(order_three, 7)
{
    if (mc::thorough()) { small(3, {1, 2, 4}, {0, 1, -1}, {0, 1, -2}); } else { small(3, {2, 4}, {0, 1, -1}, {0, 1}); }
}
MC_SCENARIO_THOROUGH(order_four, 8) { small(4, {3, 4}, {0, 1}, {0, 1}); }
MC_SCENARIO(families, 5)
{
    std::vector<int> N = mc::thorough() ? std::vector<int>{1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100} : std::vector<int>{1, 2, 5, 8, 17, 33};
    int f = mc::choose(7), n = mc::pick(N), pk = mc::choose(5), sk = mc::choose(5), rk = mc::choose(4);
    M A = big(f, n); std::vector<double> xe(n, 0.0);
    for (int i = 0; i < n; ++i) { xe[i] = rk == 0 ? 0 : rk == 1 ? 1 : rk == 2 ? (i == n / 2) : cell(i, i, 3); }
    auto b = A.mul(xe); M P = pk ? prec(pk, A) : M(); auto x0 = start(sk, A, b, xe);
    mc::state(mc::Hash().u(A.hash()).c(b).c(x0).u(pk));
    cases(A, pk ? &P : nullptr, b, x0, n > 8);
    MC_STEP("family ", f, " of order ", n, " preconditioner ", pk, " start ", sk, " right-hand side ", rk);
}
// one solver object used for every sequence of solves, changing limits and matrices in between, against fresh ones
MC_SCENARIO(reuse, 4)
{
    int depth = 3;
    M As[3] = {big(0, 3), big(2, 3), big(1, 3)}; M P = prec(4, As[0]);
    SparseMatrix<double> s[3] = {sparse(As[0]), sparse(As[1]), sparse(As[2])}; auto sp = sparse(P);
    bool pre = mc::flag();
    PCGSolver S = pre ? PCGSolver(s[0], sp, 10, 1e-9, 0) : PCGSolver(s[0], 10, 1e-9, 0);
    int a = 0;
    for (int k = 0; k < depth; ++k)
    {
        int na = mc::choose(3), it = mc::thorough() ? mc::pick({0, 1, 2, 10}) : mc::pick({1, 2, 10}), bk = mc::choose(3), sk = mc::choose(2);
        if (na != a) { a = na; S.SetOperator(s[a]); }
        S.SetMaxIter(it);
        std::vector<double> b = bk == 0 ? std::vector<double>{0, 0, 0} : bk == 1 ? std::vector<double>{1, 0, 0} : bk == 2 ? std::vector<double>{1, -2, 3} : As[a].mul({1, 1, 1});
        std::vector<double> x0 = sk ? std::vector<double>{1, 1, 1} : std::vector<double>{0, 0, 0};
        auto x = vec(x0), y = vec(x0); auto bv = vec(b);
        S.Mult(bv, x);
        PCGSolver F = pre ? PCGSolver(s[a], sp, it, 1e-9, 0) : PCGSolver(s[a], it, 1e-9, 0);
        F.Mult(bv, y);
        same_vec(x, stdv(y), "a used solver differs from a fresh one");
        MC_CHECK(S.GetNumIterations() == F.GetNumIterations(), "iterations reported");
        judge(As[a], pre ? &P : nullptr, b, x0, stdv(x), S.GetNumIterations(), 0, it, {1e-9, 0}, krylov_minimisers(As[a], pre ? &P : nullptr, b, x0, 4, true), "reused solver");
        mc::state(mc::Hash().u(a).u(it).u(bk).u(sk).u(pre));
        MC_STEP("solve with matrix ", a, " max ", it, " b ", bk, " start ", sk);
    }
}
// a user's inner product function is the one used: scaled by a power of two nothing but the absolute tolerance changes
namespace { double dot4(const VectorView<double>& a, const VectorView<double>& b) { double s = 0; for (int i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return 4 * s; } }
MC_SCENARIO(inner_product, 3)
{
    int f = mc::choose(7), n = 1 + mc::choose(4), it = mc::choose(6); bool pre = mc::flag();
    M A = big(f, n), P = prec(4, A); auto s = sparse(A), sp = sparse(P); auto b = ramp(n, 1), x0 = ramp(n, 2);
    auto x = vec(x0), y = vec(x0);
    PCGSolver S = pre ? PCGSolver(s, sp, it, 1e-9, 0, false, dot4) : PCGSolver(s, it, 1e-9, 0, false, dot4);
    PCGSolver F = pre ? PCGSolver(s, sp, it, 1e-9, 0) : PCGSolver(s, it, 1e-9, 0);
    S.Mult(vec(b), x); F.Mult(vec(b), y);
    for (int i = 0; i < n; ++i) { MC_CHECK(std::fabs(x[i] - y[i]) <= 1e-9 * (1 + std::fabs(y[i])), "scaled inner product changes the result"); }
    mc::state(mc::Hash().u(A.hash()).u(it).u(pre)); MC_STEP("family ", f, " n ", n, " max ", it);
}

// scaling matrix, preconditioner, right-hand side, guess and absolute tolerance by powers of two scales the result and nothing else
MC_SCENARIO(scaled, 5)
{
    int f = mc::choose(7), n = mc::pick({1, 2, 3, 5, 8}), rk = mc::choose(3); bool pre = mc::flag();
    int ka = mc::pick({0, -60, 50, -100}), kb = mc::pick({0, -60, 70, -110, 100}), kp = pre ? mc::pick({0, -40, 60}) : 0, it = mc::pick({1, 2, 50}), tk = mc::choose(3), sk = mc::choose(2);
    M A = big(f, n), P = prec(4, A), B = A, Q = P;
    std::vector<double> xe(n), x0(n, 0.0); for (int i = 0; i < n; ++i) { xe[i] = rk == 0 ? 1 : rk == 1 ? (i == n / 2) : cell(i, i, 3); if (sk) { x0[i] = cell(i, 2 * i, 5) / 2.0; } }
    auto b = A.mul(xe), bs = b, xs = x0;
    double rel = tk == 0 ? 1e-8 : tk == 1 ? 0.1 : 0, abs = tk == 2 ? 0.25 : 0;
    for (double& v : B.a) { v = std::ldexp(v, ka); } for (double& v : Q.a) { v = std::ldexp(v, kp); } for (double& v : bs) { v = std::ldexp(v, kb); } for (double& v : xs) { v = std::ldexp(v, kb - ka); }
    auto run = [&](const M & a, const M & p, const std::vector<double>& rhs, const std::vector<double>& x0, double abs, int& count)
    {
        auto sa = sparse(a), sp = sparse(p); auto x = vec(x0); auto bv = vec(rhs);
        PCGSolver S = pre ? PCGSolver(sa, sp, it, rel, abs) : PCGSolver(sa, it, rel, abs);
        S.Mult(bv, VectorView<double>(x)); count = S.GetNumIterations();
        return stdv(x);
    };
    int c1 = -1, c2 = -1;
    auto x = run(A, P, b, x0, abs, c1), y = run(B, Q, bs, xs, std::ldexp(abs, kb + kp / 2), c2);
    std::string what = mc::S("matrix scaled by 2^", ka, ", right-hand side by 2^", kb, ", preconditioner by 2^", kp, ", max ", it, " tolerances ", rel, "/", abs);
    MC_CHECK(c1 == c2, what, ": ", c2, " iterations instead of ", c1);
    ld nx = 0; for (double v : x) { nx = std::max(nx, fabsl((ld)v)); }
    for (int i = 0; i < n; ++i) { MC_CHECK(fabsl((ld)std::ldexp(y[i], ka - kb) - x[i]) <= 1e-9L * nx, what, ": entry ", i, " is ", y[i], ", the unscaled result is ", x[i]); }
    mc::state(mc::Hash().u(A.hash()).u(rk).u(ka + 200).u(kb + 200).u(kp + 200).u(it).u(tk).u(sk).u(pre));
    MC_STEP("family ", f, " n ", n, " ", what);
}

// systems of a size at which an implementation might change its algorithm
MC_SCENARIO(large, 4)
{
    int n = mc::pick({129, 300, 1030}), f = mc::choose(7), pk = mc::choose(4), sk = mc::pick({0, 3, 4}), tk = mc::choose(2);
    if (n > 300 && !mc::thorough() && (pk > 2 || sk)) { mc::prune(); }
    M A = big(f, n); std::vector<double> xe(n); for (int i = 0; i < n; ++i) { xe[i] = cell(i, i, 3); }
    auto b = A.mul(xe); M P = pk ? prec(pk, A) : M(); auto x0 = start(sk, A, b, xe); const M* pp = pk ? &P : nullptr;
    auto ref = krylov_minimisers(A, pp, b, x0, 4, true); ref.push_back(tol(xe));
    Tol t = tk ? Tol{1e-5, 0} : Tol{0, 1e-4};
    auto sa = sparse(A); SparseMatrix<double> sp; if (pk) { sp = sparse(P); } Counted ca(sa); const auto bv = vec(b);
    mc::state(mc::Hash().u(n).u(f).u(pk).u(sk).u(tk).u(88));
    for (int it : {1, 3, n / 4, 10 * n})
    {
        std::string what = mc::S("order ", n, " tol ", t.rel, "/", t.abs, " max ", it);
        ca.n = 0; auto x = vec(x0); int done;
        if (pk) { PCGSolver S(ca, sp, it, t.rel, t.abs); S.Mult(bv, x); done = S.GetNumIterations(); } else { PCGSolver S(ca, it, t.rel, t.abs); S.Mult(bv, x); done = S.GetNumIterations(); }
        judge(A, pp, b, x0, stdv(x), done, ca.n, it, t, ref, what);
        same_vec(bv, b, "right-hand side");
    }
    MC_STEP("family ", f, " of order ", n, " preconditioner ", pk, " start ", sk);
}

// a preconditioner may refine the guess it is given (an iterative solver does): it is always started from zero
MC_SCENARIO(refining_preconditioner, 4)
{
    int f = mc::choose(7), n = mc::pick({1, 2, 3, 5, 9}), pk = 1 + mc::choose(4), sk = mc::choose(4), it = mc::pick({0, 1, 2, 3, 5, 40}), form = mc::choose(3), rep = 1 + mc::choose(2);
    M A = big(f, n), P = prec(pk, A); std::vector<double> xe(n); for (int i = 0; i < n; ++i) { xe[i] = cell(i, i, 3); }
    auto b = A.mul(xe); auto x0 = start(sk, A, b, xe); auto sa = sparse(A), sp = sparse(P); Refining R(A, P); const auto bv = vec(b);
    const double rel = 1e-9;
    PCGSolver S(sa, R, it, rel, 0), T(sa, sp, it, rel, 0);
    for (int k = 0; k < rep; ++k)
    {
        auto x = vec(x0), y = x;
        if (form == 0) { S.Mult(bv, x); } else if (form == 1) { PCG(sa, R, bv, VectorView<double>(x), it, rel, 0); } else { PCGSolver C(S); C.Mult(bv, x); }
        T.Mult(bv, y);
        ld ny = 1; for (double v : y) { ny = std::max(ny, fabsl((ld)v)); }
        for (int i = 0; i < n; ++i) { MC_CHECK(fabsl((ld)x[i] - y[i]) <= 1e-6L * ny, "a preconditioner that refines its starting guess, max ", it, ", solve ", k, ": entry ", i, " is ", x[i], ", with the matrix it stands for ", y[i]); }
    }
    mc::state(mc::Hash().u(A.hash()).u(pk).u(sk).u(it).u(form).u(rep).u(99)); MC_STEP("family ", f, " order ", n, " preconditioner ", pk, " start ", sk, " max ", it, " form ", form);
}

// C23: the UMFPACK solver on every small nonsingular matrix and through every life-cycle history; factorisations are
// counted at the UMFPACK interface.
#include "lin.hpp"
#include "sparsesolve.hpp"
#include <memory>
using namespace lin;
namespace { std::set<void*> numerics, symbolics; }
extern "C" int __real_umfpack_di_numeric(const int*, const int*, const double*, void*, void**, const double*, double*);
extern "C" void __real_umfpack_di_free_numeric(void**);
extern "C" int __real_umfpack_di_symbolic(int, int, const int*, const int*, const double*, void**, const double*, double*);
extern "C" void __real_umfpack_di_free_symbolic(void**);
extern "C" int __wrap_umfpack_di_numeric(const int* p, const int* i, const double* x, void* s, void** n, const double* c, double* f) { int r = __real_umfpack_di_numeric(p, i, x, s, n, c, f); if (*n) { numerics.insert(*n); } return r; }
extern "C" void __wrap_umfpack_di_free_numeric(void** n) { if (n && *n) { MC_CHECK(numerics.erase(*n), "a factorisation is released that does not exist (any more)"); } __real_umfpack_di_free_numeric(n); }
extern "C" int __wrap_umfpack_di_symbolic(int r, int c, const int* p, const int* i, const double* x, void** s, const double* ct, double* f) { int q = __real_umfpack_di_symbolic(r, c, p, i, x, s, ct, f); if (*s) { symbolics.insert(*s); } return q; }
extern "C" void __wrap_umfpack_di_free_symbolic(void** s) { if (s && *s) { MC_CHECK(symbolics.erase(*s), "a symbolic factorisation is released that does not exist (any more)"); } __real_umfpack_di_free_symbolic(s); }
namespace
{
void released(const std::string& what) { size_t n = numerics.size(), s = symbolics.size(); numerics.clear(); symbolics.clear(); MC_CHECK(!n && !s, what, ": ", n, " numeric and ", s, " symbolic factorisations were not released"); }
// determinant, exact for the small integer (or dyadic) matrices used here
double det(const M& m)
{
    std::vector<std::vector<double>> a(m.r, std::vector<double>(m.r)); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.r; ++j) { a[i][j] = m(i, j); }
    double sign = 1, prev = 1; int n = m.r;
    for (int k = 0; k + 1 < n; ++k)                    // Bareiss
    {
        if (a[k][k] == 0) { int p = k + 1; while (p < n && a[p][k] == 0) { ++p; } if (p == n) { return 0; } std::swap(a[k], a[p]); sign = -sign; }
        for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) { a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev; }
        prev = a[k][k];
    }
    return n ? sign * a[n - 1][n - 1] : 1;
}
double norm(const M& m) { double s = 0; for (double x : m.a) { s = std::max(s, std::fabs(x)); } return s; }
// solve with a right-hand side made from x and compare
void solved(const SparseSolver& s, const M& m, const std::vector<double>& x, bool trans, int form, double tol, const std::string& what)
{
    auto b = (trans ? m.T() : m).mul(x); auto bv = vec(b), keep = bv; Vector<double> y(m.r, nan()); const Operator& op = s; std::string why;
    auto st = mc::guarded([&]
    {
        if (!trans)
        {
            switch (form) { case 0: s.Mult(bv, VectorView<double>(y)); break; case 1: y = s.Mult(bv); break; case 2: op.Mult(bv, VectorView<double>(y)); break; case 3: y = op.Mult(bv); break; case 4: s.Mult(bv, y); break; default: y = Vector<double>(m.r + 2, 7.0); op.Mult(bv, y); }
        }
        else
        {
            switch (form) { case 0: s.MultAT(bv, VectorView<double>(y)); break; case 1: op.MultAT(bv, VectorView<double>(y)); break; case 2: y = op.MultAT(bv); break; default: y = Vector<double>(0); op.MultAT(bv, y); }
        }
    }, &why);
    MC_CHECK(st == mc::Stop::none, what, ": stopped by ", why);
    MC_CHECK(y.size() == m.r, what, ": solution has ", y.size(), " entries");
    double big = 1; for (double v : x) { big = std::max(big, std::fabs(v)); }
    for (int i = 0; i < m.r; ++i) { if (!(std::fabs(y[i] - x[i]) <= tol * big)) { mc::fail(mc::S(what, trans ? " transposed" : "", " form ", form, ": entry ", i, " is ", y[i], ", the solution is ", x[i])); } }
    for (int i = 0; i < m.r; ++i) { MC_CHECK(bv[i] == keep[i], what, ": the right-hand side was changed"); }
}
void all_solves(const SparseSolver& s, const M& m, double tol, const std::string& what, bool every = true)
{
    MC_CHECK(s.Rows() == m.r && s.Cols() == m.c, what, ": solver reports ", s.Rows(), "x", s.Cols());
    std::vector<std::vector<double>> xs; xs.push_back(ramp(m.r, 1)); if (every) { for (int i = 0; i < m.r; ++i) { std::vector<double> e(m.r, 0.0); e[i] = i % 2 ? -3 : 2; xs.push_back(e); } xs.push_back(std::vector<double>(m.r, 0.0)); }
    int form = 0; for (auto& x : xs) { solved(s, m, x, false, form % 6, tol, what); solved(s, m, x, true, form % 4, tol, what); ++form; }
    if (every) { for (; form < 6; ++form) { solved(s, m, xs[0], false, form, tol, what); if (form < 4) { solved(s, m, xs[0], true, form, tol, what); } } }
}
M choose_square(int n, const std::vector<double>& al) { return choose_matrix(n, n, al); }
void one(const M& m, int order, double tol, bool every)
{
    std::string what = mc::S(m.r <= 5 ? m.str() : mc::S(m.r, "x", m.r), " order ", order), why;
    {
        auto a = sparse(m, order), keep = a; std::unique_ptr<SparseSolver> s;
        auto st = mc::guarded([&] { s.reset(new SparseSolver(a)); }, &why); MC_CHECK(st == mc::Stop::none, what, ": nonsingular and not factorised: ", why);
        MC_CHECK(a.GetIndices() == keep.GetIndices() && a.GetData() == keep.GetData() && a.GetIndptr() == keep.GetIndptr(), what, ": the matrix given was changed");
        a = 3.0;                                        // the solver has its own copy
        all_solves(*s, m, tol, what, every);
    }
    released(what); mc::state(mc::Hash().u(m.hash()).u(order)); MC_STEP(what);
}
}
MC_SCENARIO(small_matrices, 6)
{
    int n = 1 + mc::choose(3); std::vector<double> al = n < 3 ? std::vector<double>{1, -1, 2, 0, -3, 0.5, 7} : mc::thorough() ? std::vector<double>{1, -2, 0} : std::vector<double>{1, -2};
    M m = choose_square(n, al); if (det(m) == 0) { mc::prune(); } one(m, n == 1 ? 0 : mc::choose(n == 3 && !mc::thorough() ? 2 : NORD) * (n == 3 && !mc::thorough() ? 3 : 1), 1e-10 * std::max(1.0, norm(m) * 10 / std::fabs(det(m))), n < 3);
}
MC_SCENARIO(zero_one_4x4, 6) { M m = choose_square(4, {1}); if (det(m) == 0) { mc::prune(); } one(m, mc::thorough() ? mc::choose(NORD) : 2 + mc::choose(3), 1e-10, false); }
MC_SCENARIO(families, 4)
{
    int n = mc::pick(mc::thorough() ? std::vector<int>{1, 2, 5, 16, 33, 100, 257, 600, 1030} : std::vector<int>{2, 5, 33, 100, 300, 1030}), f = mc::choose(9), order = mc::choose(n <= 100 ? NORD : 3); double scale = mc::pick({1.0, 1e-6, 1e8}); M m(n, n);
    if (n > 257 && (scale < 1 || order == 1 || (n > 600 && f == 7))) { mc::prune(); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            bool on = false; double v = cell(i, j, 3) / 8;
            switch (f)
            {
            case 0: on = i == j; v = 2 + i % 3; break;
            case 1: on = std::abs(i - j) <= 1; if (i == j) { v = 4; } break;
            case 2: on = i == 0 || j == 0 || i == j; if (i == j) { v = n + 3; } break;
            case 3: on = i + j == n - 1; v = i % 2 ? -2 : 5; break;                                  // needs row exchanges
            case 4: on = j == (i + 1) % n; v = 1 + i % 4; break;                                     // cyclic permutation
            case 5: on = j >= i && j < i + 5; if (i == j) { v = 6; } break;                           // triangular
            case 6: on = j <= i && (i - j) % 3 == 0; if (i == j) { v = 6; } break;
            case 7: on = true; if (i == j) { v = 2 * n; } break;                                      // dense
            default: on = i == j || (i * 31 + j * 17) % 11 == 0; if (i == j) { v = n + 5; } break;    // scattered, unsymmetric
            }
            if (on) { m.set(i, j, v * scale); }
        }
    one(m, order, 1e-8, false);
}
// every life-cycle history over a pool of solvers
namespace
{
const std::vector<M>& mats()
{
    static std::vector<M> v;
    if (v.empty())
    {
        M a(2, 2), b(3, 3), c(3, 3), d(5, 5); a.set(0, 0, 2); a.set(0, 1, 1); a.set(1, 0, -1); a.set(1, 1, 1);
        b.set(0, 2, 3); b.set(1, 0, 1); b.set(1, 1, 2); b.set(2, 1, -1); c.set(0, 0, 4); c.set(1, 1, 2); c.set(2, 2, -1); c.set(0, 2, 1);
        for (int i = 0; i < 5; ++i) { d.set(i, i, 5); d.set(i, (i + 2) % 5, 1 + i); } v = {a, b, c, d, M(0, 0)};
    }
    return v;
}
void pool(int depth, int N)
{
    {
        std::unique_ptr<SparseSolver> s[3]; int m[3] = {0, 1, 4}; bool ok[3] = {true, true, true};       // 4: default-constructed (empty)
        s[0].reset(new SparseSolver(sparse(mats()[0], 1))); s[1].reset(new SparseSolver(sparse(mats()[1], 0))); s[2].reset(new SparseSolver());
        for (int k = 0; k < depth; ++k)
        {
            int op = mc::choose(11), i = mc::choose(N), j = op <= 5 ? mc::choose(N) : 0; if (op <= 4 && !ok[j]) { mc::prune(); } if (op == 5 && j < i) { mc::prune(); }
            std::string why; auto st = mc::guarded([&]
            {
                switch (op)
                {
                case 0: *s[i] = *s[j]; m[i] = m[j]; ok[i] = true; break;
                case 1: if (i == j) { mc::prune(); } *s[i] = std::move(*s[j]); m[i] = m[j]; ok[i] = true; ok[j] = false; break;
                case 2: { std::unique_ptr<SparseSolver> t(new SparseSolver(*s[j])); s[i] = std::move(t); m[i] = m[j]; ok[i] = true; break; }
                case 3: { std::unique_ptr<SparseSolver> t(new SparseSolver(std::move(*s[j]))); if (i != j) { ok[j] = false; } s[i] = std::move(t); m[i] = m[j]; ok[i] = true; break; }
                case 4: { std::vector<SparseSolver> v; v.push_back(*s[j]); v.emplace_back(sparse(mats()[2])); v.push_back(std::move(*s[j])); v.erase(v.begin()); std::swap(v[0], v[1]); if (i != j) { ok[j] = false; } *s[i] = v[0]; m[i] = m[j]; ok[i] = true; break; }
                case 5: swap(*s[i], *s[j]); std::swap(m[i], m[j]); std::swap(ok[i], ok[j]); break;
                case 6: case 7: m[i] = op == 6 ? 3 : 2; *s[i] = SparseSolver(sparse(mats()[m[i]], k % 3)); ok[i] = true; break;
                case 8: s[i].reset(new SparseSolver()); m[i] = 4; ok[i] = true; break;
                case 9: *s[i] = SparseSolver(); m[i] = 4; ok[i] = true; break;
                case 10: if (!ok[i]) { mc::prune(); } { auto f = [](SparseSolver x) { return x; }; *s[i] = f(std::move(*s[i])); } break;
                }
            }, &why);
            MC_CHECK(st == mc::Stop::none, "operation ", op, " on ", i, ",", j, " stopped by ", why);
            for (int q = 0; q < 3; ++q) if (ok[q]) { all_solves(*s[q], mats()[m[q]], 1e-10, mc::S("solver ", q, " after operation ", op, " on ", i, ",", j), false); }
            mc::Hash h; for (int q = 0; q < 3; ++q) { h.u(ok[q] ? m[q] : 9); } mc::state(h); MC_STEP("operation ", op, " on ", i, ",", j);
        }
    }
    released("after the last solver is gone");
}
}
MC_SCENARIO(life_cycles, 4) { pool(mc::thorough() ? 4 : 3, 3); }
// repeated and interleaved solves on two solvers, plain and transposed
MC_SCENARIO(interleaved, 3)
{
    { SparseSolver a(sparse(mats()[1])), b(sparse(mats()[3], 1)); int depth = 5; for (int s = 0; s < depth; ++s) { int w = mc::choose(4); auto& m = mats()[w & 1 ? 3 : 1]; solved(w & 1 ? b : a, m, ramp(m.r, s), w & 2, s % 4, 1e-10, mc::S("solve ", s)); mc::state(mc::Hash().u(s).u(w)); MC_STEP("solve ", w); } }
    released("interleaved");
}
// a matrix without entries: nothing to factorise
MC_SCENARIO(without_entries, 2)
{
    int n = mc::choose(4), how = mc::choose(5);
    {
        SparseMatrix<double> e(n, n); SparseSolver s(e); std::unique_ptr<SparseSolver> t; SparseSolver d; std::string why;
        auto st = mc::guarded([&] { switch (how) { case 0: t.reset(new SparseSolver(s)); break; case 1: t.reset(new SparseSolver(std::move(s))); break; case 2: t.reset(new SparseSolver()); *t = s; break; case 3: t.reset(new SparseSolver(sparse(mats()[0]))); *t = s; break; default: t.reset(new SparseSolver(d)); *t = d; } }, &why);
        MC_CHECK(st == mc::Stop::none, "stopped by ", why); MC_CHECK(t->Rows() == (how == 4 ? 0 : n), "size ", t->Rows());
        t.reset();
    }
    released("matrices without entries"); mc::state(mc::Hash().u(n).u(how)); MC_STEP("size ", n, " way ", how);
}

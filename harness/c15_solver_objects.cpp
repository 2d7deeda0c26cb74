// C15: solver objects keep their own settings.  A pool of three solvers of one kind is driven through every sequence of
// life-cycle operations, setters and solves next to plain records of the settings; each solve must be bit-identical to
// that of a solver freshly constructed with the recorded settings.
#include "krylov.hpp"
#include <memory>
using namespace kry;
namespace
{
struct Set { int w = 0; int a = 0, p = 0; int it = 3; double rel = 1e-9, abs = 0; bool verb = false; int dot = 0; int count = 0; };
double other_dot(const VectorView<double>& a, const VectorView<double>& b) { double s = 0; for (int i = a.size() - 1; i >= 0; --i) { s += 2 * a[i] * b[i]; } return s; }
typedef double (*DotFn)(const VectorView<double>&, const VectorView<double>&);
struct World
{
    int n;
    SparseMatrix<double> A[3], P[2];
    explicit World(int size = 3) : n(size)
    {
        M a(n, n), b(n, n), c(n, n), p(n, n), q(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.set(i, j, i == j ? n + 1 : 1); b.set(i, j, i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0); c.set(i, j, i == j ? i + 1 : 0); p.set(i, j, i == j ? 1.0 / (i + 1) : 0); q.set(i, j, i == j ? n - 1 : 0.5); }
        A[0] = sparse(a); A[1] = sparse(b); A[2] = sparse(c); P[0] = sparse(p); P[1] = sparse(q);
    }
};
const World& world(const Set& s) { static const World W[2] = {World(3), World(5)}; return W[s.w]; }
DotFn dotf(int d) { return d ? other_dot : (DotFn)linalgcpp::InnerProduct; }
struct Cg { typedef PCGSolver S; static const bool pre = true, opt = true; static S make(const World& w, const Set& s) { return s.p ? S(w.A[s.a], w.P[s.p - 1], s.it, s.rel, s.abs, s.verb, dotf(s.dot)) : S(w.A[s.a], s.it, s.rel, s.abs, s.verb, dotf(s.dot)); } static void setp(S& s, const Operator& m) { s.SetPreconditioner(m); } };
struct Mr { typedef MINRESSolver S; static const bool pre = false, opt = false; static S make(const World& w, const Set& s) { return S(w.A[s.a], s.it, s.rel, s.abs, s.verb, dotf(s.dot)); } static void setp(S&, const Operator&) {} };
struct Pm { typedef PMINRESSolver S; static const bool pre = true, opt = false; static S make(const World& w, const Set& s) { return S(w.A[s.a], w.P[s.p - 1], s.it, s.rel, s.abs, s.verb, dotf(s.dot)); } static void setp(S&, const Operator&) {} };
int lines(const std::string& s) { int n = 0; for (char c : s) { n += c == '\n'; } return n; }
template <typename K>
void solve(typename K::S& s, Set& m, int which, const std::string& what)
{
    const World& w = world(m); const int n = w.n;
    std::vector<double> b = which == 0 ? std::vector<double>{1, 2, -1} : which == 1 ? std::vector<double>{0, 0, 0} : std::vector<double>{3, 0, 5}; b.resize(n, which == 1 ? 0.0 : 4.0);
    auto x = vec(std::vector<double>(n, which == 2 ? 1.0 : 0.0)); auto y = x; auto bv = vec(b);
    typename K::S f = K::make(w, m);
    MC_CHECK(s.GetOperator() == &w.A[m.a], what, ": reports another operator");
    MC_CHECK(s.Rows() == n && s.Cols() == n, what, ": reports size ", s.Rows(), "x", s.Cols());
    if (m.verb) { std::string p = printed([&] { s.Mult(bv, VectorView<double>(x)); }), q = printed([&] { f.Mult(bv, VectorView<double>(y)); }); MC_CHECK(p == q, what, ": prints\n", p, "instead of\n", q); MC_CHECK(lines(p) == s.GetNumIterations(), what, ": prints ", lines(p), " lines for ", s.GetNumIterations(), " iterations"); }
    else { std::string p = printed([&] { s.Mult(bv, VectorView<double>(x)); }); MC_CHECK(p.empty(), what, ": prints although it is not verbose: ", p); f.Mult(bv, VectorView<double>(y)); }
    for (int i = 0; i < n; ++i) { MC_CHECK(x[i] == y[i], what, ": entry ", i, " of the solution is ", x[i], ", a fresh solver with the same settings gives ", y[i]); }
    MC_CHECK(s.GetNumIterations() == f.GetNumIterations(), what, ": takes ", s.GetNumIterations(), " iterations, a fresh solver with the same settings ", f.GetNumIterations());
    m.count = s.GetNumIterations();
}
template <typename K>
void pool(int depth, int n)
{
    typedef typename K::S S;
    int mixed = mc::choose(2);                       // solvers of one size, or the last one larger than the others
    Set m[3]; bool ok[3] = {true, true, true}; std::unique_ptr<S> o[3];
    m[0].a = 0; m[1].a = 1; m[1].it = 1; m[2].a = 2; m[2].rel = 0; m[2].abs = 0.125; m[2].it = 10;
    m[0].p = K::opt ? 0 : K::pre ? 1 : 0; m[1].p = K::pre ? 1 : 0; m[2].p = K::pre ? 2 : 0; m[1].dot = 1;
    if (mixed) { m[n - 1].w = 1; }
    for (int k = 0; k < 3; ++k) { o[k].reset(new S(K::make(world(m[k]), m[k]))); }
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(14), i = mc::choose(n), j = op < 5 ? mc::choose(n) : 0;
        if (op != 4 && op < 5 && !ok[j]) { mc::prune(); }
        if (op >= 6 && !ok[i]) { mc::prune(); }
        switch (op)
        {
        case 0: *o[i] = *o[j]; m[i] = m[j]; ok[i] = true; break;
        case 1: if (i == j) { mc::prune(); } o[i].reset(new S(*o[j])); m[i] = m[j]; ok[i] = true; break;
        case 2: if (i == j) { mc::prune(); } *o[i] = std::move(*o[j]); m[i] = m[j]; ok[i] = true; ok[j] = false; break;
        case 3: { std::unique_ptr<S> t(new S(std::move(*o[j]))); o[i] = std::move(t); m[i] = m[j]; if (i != j) { ok[j] = false; } ok[i] = true; break; }
        case 4: if (j < i) { mc::prune(); } swap(*o[i], *o[j]); std::swap(m[i], m[j]); std::swap(ok[i], ok[j]); break;
        case 5: { Set t; t.w = mixed ? (s + i) % 2 : 0; t.a = s % 3; t.p = K::pre ? 1 + s % 2 : 0; t.it = 2 + s; *o[i] = K::make(world(t), t); m[i] = t; ok[i] = true; break; }
        case 6: m[i].it = mc::pick({0, 2, 50}); o[i]->SetMaxIter(m[i].it); break;
        case 7: m[i].rel = mc::pick({0.5, 0.0}); o[i]->SetRelTol(m[i].rel); break;
        case 8: m[i].abs = mc::pick({1.0, 1e-8}); o[i]->SetAbsTol(m[i].abs); break;
        case 9: m[i].verb = !m[i].verb; o[i]->SetVerbose(m[i].verb); break;
        case 10: m[i].a = (m[i].a + 1) % 3; o[i]->SetOperator(world(m[i]).A[m[i].a]); break;
        case 11: { if (!K::opt) { mc::prune(); } m[i].p = m[i].p == 1 ? 2 : 1; K::setp(*o[i], world(m[i]).P[m[i].p - 1]); break; }
        case 12: solve<K>(*o[i], m[i], mc::choose(3), mc::S("solver ", i)); break;
        case 13: { S t(*o[i]); Set q = m[i]; t.SetMaxIter(1); t.SetRelTol(0.9); t.SetAbsTol(9); t.SetVerbose(true); t.SetOperator(world(m[i]).A[(m[i].a + 2) % 3]); q.it = 1; q.rel = 0.9; q.abs = 9; q.verb = true; q.a = (m[i].a + 2) % 3; MC_CHECK(o[i]->GetNumIterations() == m[i].count, "count"); solve<K>(t, q, 0, "a changed copy"); break; }
        }
        for (int k = 0; k < 3; ++k) if (ok[k]) { MC_CHECK(o[k]->GetNumIterations() == m[k].count, "solver ", k, " after operation ", op, " reports ", o[k]->GetNumIterations(), " iterations, its last solve took ", m[k].count); MC_CHECK(o[k]->GetOperator() == &world(m[k]).A[m[k].a], "solver ", k, ": operator"); }
        mc::Hash h; for (int k = 0; k < 3; ++k) { h.u(ok[k]).u(m[k].w).u(m[k].a).u(m[k].p).u(m[k].it).d(m[k].rel).d(m[k].abs).u(m[k].verb).u(m[k].dot).u(m[k].count); } mc::state(h);
        MC_STEP("op ", op, " on ", i, ",", j);
    }
    for (int k = 0; k < n; ++k) if (ok[k]) { solve<K>(*o[k], m[k], 0, mc::S("solver ", k, " at the end")); }
}
}
#define POOL(name, K) MC_SCENARIO(name, 4) { pool<K>(3, 3); } MC_SCENARIO_THOROUGH(name##_pairs, 4) { pool<K>(4, 2); }
POOL(pool_cg, Cg)
POOL(pool_minres, Mr)
POOL(pool_pminres, Pm)

// a solver inside another solver, a block operator or a product: the same as the matrix it stands for
MC_SCENARIO(nested, 3)
{
    static const World w;
    int a = mc::choose(3), inner = mc::choose(3), outer = mc::choose(3), p = mc::choose(2), rep = mc::choose(3), bk = mc::choose(4), sk = mc::choose(2);
    M A(3, 3), P(3, 3);
    { DenseMatrix d = w.A[a].ToDense(), e = w.P[p].ToDense(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { A.set(i, j, d(i, j)); P.set(i, j, e(i, j)); } }
    // the preconditioner is the action of the inverse of B, by a solver on B or by its explicit inverse
    M B = P; DenseMatrix inv = w.P[p].ToDense(); inv.Invert();
    std::unique_ptr<Solver> in;
    if (inner == 0) { in.reset(new PCGSolver(w.P[p], 50, 1e-14, 0)); } else if (inner == 1) { in.reset(new MINRESSolver(w.P[p], 50, 1e-14, 0)); } else { in.reset(new PMINRESSolver(w.P[p], w.P[1 - p], 50, 1e-14, 0)); }
    std::vector<double> b = bk == 0 ? std::vector<double>{1, 0, 0} : bk == 1 ? std::vector<double>{0, 0, 0} : bk == 2 ? std::vector<double>{1, 1, 1} : std::vector<double>{1, -2, 3};
    for (int k = 0; k <= rep; ++k)
    {
        auto x = vec(sk ? std::vector<double>{1, 2, 3} : std::vector<double>{0, 0, 0}), y = x; auto bv = vec(b);
        if (outer == 0) { PCGSolver S(w.A[a], *in, 30, 1e-10, 0), T(w.A[a], inv, 30, 1e-10, 0); S.Mult(bv, VectorView<double>(x)); T.Mult(bv, VectorView<double>(y)); }
        else if (outer == 1) { PMINRESSolver S(w.A[a], *in, 30, 1e-10, 0), T(w.A[a], inv, 30, 1e-10, 0); S.Mult(bv, VectorView<double>(x)); T.Mult(bv, VectorView<double>(y)); }
        else { MINRESSolver S(*in, 30, 1e-10, 0), T(inv, 30, 1e-10, 0); S.Mult(bv, VectorView<double>(x)); T.Mult(bv, VectorView<double>(y)); }
        for (int i = 0; i < 3; ++i) { MC_CHECK(std::isfinite(x[i]) && std::fabs(x[i] - y[i]) <= 1e-7 * (1 + std::fabs(y[i])), "solver used inside another: entry ", i, " is ", x[i], ", with the explicit matrix ", y[i]); }
    }
    mc::state(mc::Hash().u(a).u(inner).u(outer).u(p).u(rep).u(bk).u(sk)); MC_STEP("outer ", outer, " inner ", inner, " matrix ", a, "/", p);
}
MC_SCENARIO(default_constructed, 2)
{
    const World& w = world(Set()); int k = mc::choose(3), how = mc::choose(4);
    Set m; m.a = 1; m.p = 1;
    auto run = [&](auto tag) { typedef decltype(tag) K; typedef typename K::S S; Set q = m; if (K::pre == false) { q.p = 0; } S e; MC_CHECK(e.GetNumIterations() == 0 && e.Rows() == 0 && e.GetOperator() == nullptr, "default constructed solver"); S f = K::make(w, q); if (how == 0) { e = f; } else if (how == 1) { e = std::move(f); } else if (how == 2) { swap(e, f); } else { S g(e); e = K::make(w, q); g = e; solve<K>(g, q, 2, "assigned twice"); } solve<K>(e, q, 0, "assigned to a default constructed solver"); };
    if (k == 0) { run(Cg()); } else if (k == 1) { run(Mr()); } else { run(Pm()); }
    mc::state(mc::Hash().u(k).u(how)); MC_STEP("kind ", k, " how ", how);
}

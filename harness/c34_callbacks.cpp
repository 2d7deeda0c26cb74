// C34: an error raised by a user's operator, preconditioner or inner product reaches the caller of the solver or composite
// operator as it was raised, wherever it happens; nothing is left half done: the objects give afterwards what fresh ones give.
#include "krylov.hpp"
#include "blockmatrix.hpp"
#include "blockoperator.hpp"
#include "blockvector.hpp"
#include <memory>
using namespace kry;
namespace
{
struct Trouble { int id; const void* from; };                // not derived from std::exception
long countdown = -1, calls = 0; int raised = 0;
void maybe(const void* who) { ++calls; if (countdown >= 0 && countdown-- == 0) { throw Trouble{++raised, who}; } }
// what users write: may raise before, half way through or after writing the output
int moment = 0;
struct User : Operator
{
    M m;
    explicit User(const M& x) : Operator(x.r, x.c), m(x) {}
    void run(const M& a, const VectorView<double>& in, VectorView<double> out) const
    {
        MC_CHECK(in.size() == a.c && out.size() == a.r, "a user's operator of size ", a.r, "x", a.c, " is given vectors of sizes ", in.size(), " and ", out.size());
        if (moment == 0) { maybe(this); }
        auto y = a.mul(stdv(in)); for (int i = 0; i < a.r; ++i) { if (moment == 1 && i == a.r / 2) { maybe(this); } out[i] = y[i]; }
        if (moment == 1 && a.r == 0) { maybe(this); }
        if (moment == 2) { maybe(this); }
    }
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { run(m, in, out); }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { run(m.T(), in, out); }
};
bool dots = false;                                           // the inner product raises too
double user_dot(const VectorView<double>& a, const VectorView<double>& b) { if (dots) { maybe(&dots); } double s = 0; for (int i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return s; }
struct Systems { std::vector<std::unique_ptr<User>> A, P; Systems(int n) { M a(n, n), b(n, n), p(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.set(i, j, i == j ? n + i : 1); b.set(i, j, i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0); p.set(i, j, i == j ? 1.0 / (i + 1) : 0); } A.emplace_back(new User(a)); A.emplace_back(new User(b)); P.emplace_back(new User(p)); } };
const Systems& systems(int n) { static std::map<int, std::unique_ptr<Systems>> s; auto& p = s[n]; if (!p) { p.reset(new Systems(n)); } return *p; }
const int KINDS = 4;                                         // CG, preconditioned CG, MINRES, preconditioned MINRES
std::unique_ptr<Solver> solver(int kind, const Systems& s, int a, int limit, bool verbose)
{
    switch (kind)
    {
    case 0: return std::unique_ptr<Solver>(new PCGSolver(*s.A[a], limit, 1e-12, 0, verbose, user_dot));
    case 1: return std::unique_ptr<Solver>(new PCGSolver(*s.A[a], *s.P[0], limit, 1e-12, 0, verbose, user_dot));
    case 2: return std::unique_ptr<Solver>(new MINRESSolver(*s.A[a], limit, 1e-12, 0, verbose, user_dot));
    default: return std::unique_ptr<Solver>(new PMINRESSolver(*s.A[a], *s.P[0], limit, 1e-12, 0, verbose, user_dot));
    }
}
template <typename S> std::unique_ptr<Solver> life(S& s, int how) { switch (how) { case 1: return std::unique_ptr<Solver>(new S(s)); case 2: return std::unique_ptr<Solver>(new S(std::move(s))); case 3: { std::unique_ptr<S> t(new S()); *t = s; return std::move(t); } default: { std::unique_ptr<S> t(new S()); swap(*t, s); return std::move(t); } } }
std::unique_ptr<Solver> life(int kind, Solver& s, int how) { if (kind < 2) { return life(static_cast<PCGSolver&>(s), how); } if (kind == 2) { return life(static_cast<MINRESSolver&>(s), how); } return life(static_cast<PMINRESSolver&>(s), how); }
std::vector<double> rhs(int n, int k) { std::vector<double> b(n, 0.0); for (int i = 0; i < n; ++i) { b[i] = k == 0 ? i + 1 : k == 1 ? (i % 2 ? -1 : 3) : (i == n - 1); } return b; }
// runs f with the k-th call of a user's function raising; checks that exactly this reaches us
bool fails(long k, const std::function<void()>& f, const std::string& what)
{
    int before = raised; countdown = k; calls = 0; std::string other;
    try { f(); } catch (const Trouble& t) { countdown = -1; MC_CHECK(t.id == raised && raised == before + 1, what, ": another error arrives than the one raised"); return true; } catch (const std::exception& e) { countdown = -1; mc::fail(mc::S(what, ": the user's error arrives as '", e.what(), "'")); } catch (...) { countdown = -1; mc::fail(mc::S(what, ": the user's error arrives as another one")); }
    bool due = countdown < 0 && k >= 0; countdown = -1; MC_CHECK(!due, what, ": the error was raised and never arrives"); return false;
}
long counted(const std::function<void()>& f) { countdown = -1; calls = 0; f(); return calls; }
void solve_and_compare(Solver& s, int kind, const Systems& w, int a, int limit, int bk, int start, const std::string& what)
{
    int n = w.A[0]->Rows(); auto f = solver(kind, w, a, limit, false); auto b = vec(rhs(n, bk)); auto x = vec(std::vector<double>(n, start)), y = x; static_cast<Operator&>(s).Mult(b, VectorView<double>(x)); static_cast<Operator&>(*f).Mult(b, VectorView<double>(y));
    for (int i = 0; i < n; ++i) { MC_CHECK(x[i] == y[i], what, ": entry ", i, " is ", x[i], ", a fresh solver gives ", y[i]); }
    MC_CHECK(s.GetNumIterations() == f->GetNumIterations(), what, ": ", s.GetNumIterations(), " iterations, a fresh solver takes ", f->GetNumIterations());
}
}
// a solver whose operator, preconditioner or inner product fails at its k-th application, then used again
MC_SCENARIO(solver_objects, 4)
{
    int kind = mc::choose(KINDS), n = mc::pick({1, 2, 3, 5}), a = mc::choose(2), limit = mc::pick({0, 2, 30}), bk = mc::choose(2), start = mc::choose(2); bool verbose = mc::flag(); dots = mc::flag(); moment = mc::choose(3); const Systems& w = systems(n);
    if (!mc::thorough() && verbose && limit != 30) { mc::prune(); }
    auto b = vec(rhs(n, bk)); long total = counted([&] { auto s = solver(kind, w, a, limit, false); auto x = vec(std::vector<double>(n, start)); static_cast<Operator&>(*s).Mult(b, VectorView<double>(x)); });
    if (!total) { mc::prune(); }
    long k = mc::choose((int)total); auto s = solver(kind, w, a, limit, verbose); std::string what = mc::S("solver kind ", kind, " size ", n, " system ", a, " limit ", limit, " start ", start, ", call ", k, " of ", total, dots ? " (inner products count)" : "", " raises");
    std::vector<double> store(n + 2, start); store[0] = store[n + 1] = 77; VectorView<double> x(store.data() + 1, n); auto keep = rhs(n, bk); bool f = false;
    std::string out = printed([&] { f = fails(k, [&] { static_cast<Operator&>(*s).Mult(b, x); }, what); }); MC_CHECK(f, what, ": solved without the call that raises");
    MC_CHECK(verbose || out.empty(), what, ": prints ", out); MC_CHECK(store[0] == 77 && store[n + 1] == 77, what, ": wrote outside the solution"); same_vec(b, keep, what + ": right-hand side");
    MC_CHECK(s->GetOperator() == w.A[a].get(), what, ": another operator afterwards"); s->SetVerbose(false);
    int how = mc::choose(5); if (how) { s = life(kind, *s, how); }
    int again = mc::choose(2);
    if (again)                                               // a second failure at another place
    {
        long j = (k + total / 2) % total; auto y = vec(std::vector<double>(n, 0)); fails(j, [&] { static_cast<Operator&>(*s).Mult(b, VectorView<double>(y)); }, what + " twice");
    }
    solve_and_compare(*s, kind, w, a, limit, mc::choose(2), start, what + mc::S(", then (", how, ")"));
    dots = false; moment = 0; mc::state(mc::Hash().u(kind).u(n).u(a).u(limit).u(bk).u(start).u(verbose).u(k).u(how).u(again)); MC_STEP(what);
}
// the free functions
MC_SCENARIO(free_functions, 3)
{
    int kind = mc::choose(KINDS), form = mc::choose(2), n = mc::pick({1, 2, 3, 5}), a = mc::choose(2), limit = mc::pick({0, 2, 30}), bk = mc::choose(2); moment = mc::choose(3); dots = false; const Systems& w = systems(n); auto b = vec(rhs(n, bk));
    auto run = [&](Vector<double>& x)
    {
        const Operator& A = *w.A[a]; const Operator& P = *w.P[0]; VectorView<double> v(x);
        switch (kind * 2 + form)
        {
        case 0: x = CG(A, b, limit, 1e-12, 0.0); break; case 1: CG(A, b, v, limit, 1e-12, 0.0); break; case 2: x = PCG(A, P, b, limit, 1e-12, 0.0); break; case 3: PCG(A, P, b, v, limit, 1e-12, 0.0); break;
        case 4: x = MINRES(A, b, limit, 1e-12, 0.0); break; case 5: MINRES(A, b, v, limit, 1e-12, 0.0); break; case 6: x = PMINRES(A, P, b, limit, 1e-12, 0.0); break; default: PMINRES(A, P, b, v, limit, 1e-12, 0.0);
        }
    };
    auto want = vec(std::vector<double>(n, 0.0)); auto seedless = [&](Vector<double>& x) { run(x); };
    long total = counted([&] { seedless(want); }); if (!total) { mc::prune(); }
    long k = mc::choose((int)total); std::string what = mc::S("free function ", kind, " form ", form, " size ", n, " limit ", limit, ", call ", k, " of ", total, " raises");
    { Vector<double> warm(n, 0.0); fails(k, [&] { seedless(warm); }, what); }
    long before = mc::live_allocs(); { Vector<double> x(n, 0.0); MC_CHECK(fails(k, [&] { seedless(x); }, what), what, ": finished without the call that raises"); } MC_CHECK(mc::live_allocs() == before, what, ": leaves memory behind");
    if (form) { auto x = vec(std::vector<double>(n, 0.0)); run(x); same_vec(x, stdv(want), what + ", then again"); }
    moment = 0; mc::state(mc::Hash().u(kind).u(form).u(n).u(a).u(limit).u(bk).u(k)); MC_STEP(what);
}
// composite operators
MC_SCENARIO(block_operators, 4)
{
    std::vector<int> ro(1, 0), co(1, 0); int nr = 1 + mc::choose(2), nc = 1 + mc::choose(2); for (int i = 0; i < nr; ++i) { ro.push_back(ro.back() + mc::pick({0, 1, 3})); } for (int j = 0; j < nc; ++j) { co.push_back(co.back() + mc::pick({1, 2})); }
    moment = mc::choose(3); BlockOperator op(ro, co); std::vector<std::unique_ptr<Operator>> keep; M whole(ro.back(), co.back());
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j)
        {
            int kind = mc::choose(3); if (!kind) { continue; } M m(ro[i + 1] - ro[i], co[j + 1] - co[j]); for (int k = 0; k < m.r; ++k) for (int l = 0; l < m.c; ++l) { m.set(k, l, cell(ro[i] + k, co[j] + l, 2)); whole.set(ro[i] + k, co[j] + l, m(k, l)); }
            if (kind == 1) { keep.emplace_back(new User(m)); } else { keep.emplace_back(new SparseMatrix<double>(sparse(m))); } op.SetBlock(i, j, *keep.back());
        }
    bool transposed = mc::flag(), nested = mc::flag(); BlockOperator outer({0, ro.back()}, {0, co.back()}); outer.SetBlock(0, 0, op); const Operator& used = nested ? static_cast<const Operator&>(outer) : op; int form = mc::choose(2);
    auto in = iramp(transposed ? ro.back() : co.back(), 1); auto x = vec(in); auto want = (transposed ? whole.T() : whole).mul(in); std::vector<double> store(want.size() + 2, 5.5); VectorView<double> y(store.data() + 1, (int)want.size());
    auto run = [&] { if (form) { Vector<double> r = transposed ? used.MultAT(x) : used.Mult(x); for (int i = 0; i < r.size(); ++i) { y[i] = r[i]; } } else if (transposed) { used.MultAT(x, y); } else { used.Mult(x, y); } };
    long total = counted(run); same_vec(y, want, "block operator"); std::string what = mc::S("block operator ", nr, "x", nc, transposed ? " transposed" : "", nested ? " nested" : "");
    for (long k = 0; k < total; ++k)
    {
        MC_CHECK(fails(k, run, what), what, ": applied without call ", k, " of ", total); MC_CHECK(store[0] == 5.5 && store.back() == 5.5, what, ": wrote outside the output"); same_vec(x, in, what + ": input");
        BlockOperator copy(op); std::vector<double> r(want.size()); VectorView<double> z(r.data(), (int)r.size()); if (transposed) { static_cast<const Operator&>(copy).MultAT(x, z); } else { static_cast<const Operator&>(copy).Mult(x, z); } same_vec(z, want, what + ": a copy after the error");
        run(); same_vec(y, want, what + ": after the error"); mc::step();
    }
    moment = 0; mc::state(mc::Hash().c(ro).c(co).u(whole.hash()).u(transposed).u(nested).u(total)); MC_STEP(what, ": ", total, " calls raise in turn");
}
// a solver on a block operator of users' operators, preconditioned by another solver: errors pass through all layers
MC_SCENARIO(layers, 3)
{
    int kind = mc::choose(KINDS), inner = mc::choose(KINDS); moment = mc::choose(3); dots = mc::flag(); M a(2, 2), b(3, 3), q(5, 5); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { a.set(i, j, i == j ? 4 : 1); } for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { b.set(i, j, i == j ? 5 + i : -1); } for (int i = 0; i < 5; ++i) { q.set(i, i, 1 + i % 2); }
    User ua(a), ub(b), uq(q); BlockOperator op({0, 2, 5}); op.SetBlock(0, 0, ua); op.SetBlock(1, 1, ub);
    std::unique_ptr<Solver> in; switch (inner) { case 0: in.reset(new PCGSolver(uq, 20, 1e-10, 0, false, user_dot)); break; case 1: in.reset(new PCGSolver(uq, uq, 20, 1e-10, 0, false, user_dot)); break; case 2: in.reset(new MINRESSolver(uq, 20, 1e-10, 0, false, user_dot)); break; default: in.reset(new PMINRESSolver(uq, uq, 20, 1e-10, 0, false, user_dot)); }
    std::unique_ptr<Solver> s; switch (kind) { case 0: case 1: s.reset(new PCGSolver(op, *in, 20, 1e-10, 0, false, user_dot)); break; default: s.reset(new PMINRESSolver(op, *in, 20, 1e-10, 0, false, user_dot)); }
    auto r = vec(rhs(5, 0)); auto x = vec(std::vector<double>(5, 0.0)), want = x; auto run = [&](Vector<double>& y) { y = 0.0; static_cast<Operator&>(*s).Mult(r, VectorView<double>(y)); };
    long total = counted([&] { run(want); }); std::string what = mc::S("layers ", kind, "/", inner);
    for (long k = 0; k < total; k += mc::thorough() || k < 40 ? 1 : 7)
    {
        MC_CHECK(fails(k, [&] { run(x); }, what), what, ": solved without call ", k, " of ", total); run(x); for (int i = 0; i < 5; ++i) { MC_CHECK(x[i] == want[i], what, ": after call ", k, " raised, entry ", i, " is ", x[i], " instead of ", want[i]); } mc::step();
    }
    dots = false; moment = 0; mc::state(mc::Hash().u(kind).u(inner).u(total)); MC_STEP(what, ": ", total, " calls");
}
// an operator without a transpose says so, through every layer
MC_SCENARIO(no_transpose, 1)
{
    struct Half : Operator { M m; explicit Half(const M& x) : Operator(x.r, x.c), m(x) {} void Mult(const VectorView<double>& in, VectorView<double> out) const override { auto y = m.mul(stdv(in)); for (int i = 0; i < m.r; ++i) { out[i] = y[i]; } } };
    int r = mc::pick({1, 2, 4}), c = mc::pick({1, 3}), layer = mc::choose(3), form = mc::choose(2); M m = family(2, r, c); Half h(m); BlockOperator b({0, r}, {0, c}); b.SetBlock(0, 0, h); BlockOperator n({0, r}, {0, c}); n.SetBlock(0, 0, b);
    const Operator& o = layer == 0 ? static_cast<const Operator&>(h) : layer == 1 ? b : n; auto x = vec(iramp(r, 1)), z = vec(iramp(c, 2)); Vector<double> y(c, 0.0); bool told = false;
    try { if (form) { o.MultAT(x); } else { o.MultAT(x, VectorView<double>(y)); } } catch (const std::exception&) { told = true; } MC_CHECK(told, "an operator without a transpose is applied transposed without an error (layer ", layer, ")");
    auto got = o.Mult(z); same_vec(got, m.mul(iramp(c, 2)), "after that"); mc::state(mc::Hash().u(r).u(c).u(layer).u(form)); MC_STEP("no transpose, layer ", layer);
}

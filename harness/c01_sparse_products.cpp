// C01: products of a sparse matrix with vectors and dense matrices.
#include "lin.hpp"
#include "huge.hpp"
using namespace lin;
namespace
{
enum Kind { VecRet, VecView, VecAuto, VecBase, VecStar, DenseRet, DenseOut, NKIND };

// output window inside a bigger NaN-filled buffer; checks nothing outside is touched
struct Win
{
    std::vector<double> buf;
    int n;
    Win(int n_) : buf(n_ + 4, nan()), n(n_) {}
    VectorView<double> view() { return VectorView<double>(buf.data() + 2, n); }
    void done(const std::vector<double>& want, const char* what)
    {
        for (int k : {0, 1, n + 2, n + 3}) { MC_CHECK(std::isnan(buf[k]), what, ": wrote outside the output vector (offset ", k - 2, " of ", n, ")"); }
        for (int i = 0; i < n; ++i) { if (!eq(buf[i + 2], want[i])) { mc::fail(mc::S(what, ": entry ", i, " is ", buf[i + 2], ", expected ", want[i])); } }
    }
};

DenseMatrix stale(int r, int c) { DenseMatrix d(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { d(i, j) = nan(); } return d; }

// One operation `k` (plain / transposed / C-transposed) of matrix s with model m.
void apply(const SparseMatrix<double>& s, const M& m, int k, int trans, const std::vector<double>& x, int dcols, int seed)
{
    const M eff = trans == 1 ? m.T() : m;
    if (k <= VecStar)
    {
        auto want = eff.mul(x);
        Vector<double> in = vec(x);
        const Operator& base = s;
        switch (k)
        {
        case VecRet: same_vec(trans ? s.MultAT(in) : s.Mult(in), want, "returned product"); break;
        case VecView: { Win w(eff.r); if (trans) { s.MultAT(in, w.view()); } else { s.Mult(in, w.view()); } w.done(want, "product into a view"); break; }
        case VecAuto:
        {
            Vector<double> out(seed % 3 == 0 ? 0 : eff.r + (seed % 3) - 1 + (seed % 2) * 5, nan());
            if (trans) { s.MultAT(in, out); } else { s.Mult(in, out); }
            same_vec(out, want, "product into a resizable vector");
            break;
        }
        case VecBase:
        {
            Win w(eff.r);
            if (trans) { base.MultAT(in, w.view()); } else { base.Mult(in, w.view()); }
            w.done(want, "product through the operator interface");
            same_vec(trans ? base.MultAT(in) : base.Mult(in), want, "returned product through the operator interface");
            Vector<double> y = vec(ramp(eff.r, 3));
            if (!trans)
            {
                double ip = 0;
                for (int i = 0; i < eff.r; ++i) { ip += y[i] * want[i]; }
                MC_CHECK(base.InnerProduct(in, y) == ip, "y^T A x is ", base.InnerProduct(in, y), ", expected ", ip);
            }
            break;
        }
        case VecStar: if (!trans) { same_vec(s.operator*<double>(in), want, "A * x"); } break;
        }
        same_vec(in, x, "input vector after the product");
    }
    else
    {
        M b(eff.c, dcols);
        for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { b(i, j) = cell(i, j, seed); }
        M want = eff.mul(b);
        if (trans == 2) { want = want.T(); }
        DenseMatrix in = dense(b);
        if (k == DenseRet) { same_dense(trans == 0 ? s.Mult(in) : trans == 1 ? s.MultAT(in) : s.MultCT(in), want, "returned dense product"); }
        else
        {
            DenseMatrix out = seed % 2 ? stale(want.r, want.c) : seed % 3 ? stale(want.c + 1, want.r + 2) : DenseMatrix();
            if (trans == 0) { s.Mult(in, out); } else if (trans == 1) { s.MultAT(in, out); } else { s.MultCT(in, out); }
            same_dense(out, want, "dense product");
        }
        same_dense(in, b, "dense input after the product");
    }
    MC_STEP("op ", k, " trans ", trans, " x=", x, " dense cols ", dcols);
}

void all_ops(const SparseMatrix<double>& s, const M& m, int seed)
{
    for (int t = 0; t < 2; ++t)
    {
        auto x = ramp(t ? m.r : m.c, seed);
        for (int k = VecRet; k <= VecStar; ++k) { apply(s, m, k, t, x, 0, seed); }
    }
    for (int t = 0; t < 3; ++t) for (int dc = 0; dc < 3; ++dc) { apply(s, m, DenseRet, t, {}, dc, seed + dc); apply(s, m, DenseOut, t, {}, dc, seed + t); }
}

void same_raw(const SparseMatrix<double>& s, const SparseMatrix<double>& c)
{ MC_CHECK(s.GetIndptr() == c.GetIndptr() && s.GetIndices() == c.GetIndices() && s.GetData() == c.GetData(), "the matrix was changed by a product"); }
}

// all patterns of all shapes up to 3x3 (4x4 thorough), all row orders
MC_SCENARIO(every_pattern, 3)
{
    int r = mc::choose(5), c = mc::choose(mc::thorough() ? 6 : 5);
    M m = choose_pattern(r, c);
    int order = mc::choose(r * c == 20 ? 1 : r * c == 16 ? 2 : NORD) + (r * c == 20);
    MC_TRACE("A = ", m.str(), " row order ", order);
    auto s = sparse(m, order);
    auto keep = s;
    mc::state(mc::Hash().u(m.hash()).u(order));
    all_ops(s, m, 1 + order);
    same_raw(s, keep);
}

// all cell values from an alphabet incl. explicit zeros, negatives, fractions, big values
MC_SCENARIO(every_value, 3)
{
    int r = 1 + mc::choose(2), c = 1 + mc::choose(2);
    M m = choose_matrix(r, c, {1, 0, -3, 0.5, 1048576});
    std::vector<double> x(c), y(r);
    for (auto& v : x) { v = mc::pick({1.0, 0.0, -2.0, 0.25}); }
    for (int i = 0; i < r; ++i) { y[i] = x[i % c] + i; }
    int order = mc::choose(2);
    MC_TRACE("A = ", m.str(), " x = ", x);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(m.hash()).c(x).u(order));
    for (int k = VecRet; k <= VecStar; ++k) { apply(s, m, k, 0, x, 0, k); apply(s, m, k, 1, y, 0, k); }
    for (int t = 0; t < 3; ++t) { apply(s, m, DenseOut, t, {}, 2, t); }
}

// integer matrices, integer and real vectors
MC_SCENARIO(integer_matrices, 3)
{
    int r = mc::choose(4), c = mc::choose(4);
    M m = choose_pattern(r, c, 2);
    int order = mc::choose(2);
    auto s = sparse<int>(m, order);
    MC_TRACE("A(int) = ", m.str());
    mc::state(mc::Hash().u(m.hash()).u(order).u(77));
    for (int t = 0; t < 2; ++t)
    {
        M eff = t ? m.T() : m;
        auto xi = iramp(eff.c, 2), xd = ramp(eff.c, 1);
        auto wi = eff.mul(xi), wd = eff.mul(xd);
        Vector<int> in = vec<int>(xi), out(eff.r, -12345);
        if (t) { s.MultAT(in, VectorView<int>(out)); } else { s.Mult(in, VectorView<int>(out)); }
        same_vec(out, wi, "integer product");
        same_vec(t ? s.MultAT(in) : s.Mult(in), wi, "returned integer product");
        if (!t) { same_vec(s.operator*<int>(in), wi, "integer A * x"); }
        Vector<double> ind = vec(xd);
        Win w(eff.r);
        if (t) { s.MultAT(ind, w.view()); } else { s.Mult(ind, w.view()); }
        w.done(wd, "integer matrix times real vector");
        same_vec(t ? static_cast<const Operator&>(s).MultAT(ind) : static_cast<const Operator&>(s).Mult(ind), wd, "integer matrix times real vector (operator)");
        Win w2(eff.r);
        if (t) { s.MultAT(in, w2.view()); } else { s.Mult(in, w2.view()); }
        w2.done(wi, "integer matrix times integer vector into reals");
        MC_STEP("int product trans ", t);
    }
    for (int t = 0; t < 3; ++t)
    {
        M eff = t == 1 ? m.T() : m;
        M b(eff.c, 2);
        for (int i = 0; i < b.r; ++i) for (int j = 0; j < 2; ++j) { b(i, j) = cell(i, j, 3) + 0.5; }
        M want = eff.mul(b);
        DenseMatrix in = dense(b);
        same_dense(t == 0 ? s.Mult(in) : t == 1 ? s.MultAT(in) : s.MultCT(in), t == 2 ? want.T() : want, "integer matrix times dense");
        MC_STEP("int dense product ", t);
    }
    auto sd = sparse<double>(m, order);
    for (int t = 0; t < 2; ++t)   // real matrix, integer vector
    {
        M eff = t ? m.T() : m;
        auto xi = iramp(eff.c, 2);
        Vector<int> in = vec<int>(xi);
        Win w(eff.r);
        if (t) { sd.MultAT(in, w.view()); } else { sd.Mult(in, w.view()); }
        w.done(eff.mul(xi), "real matrix times integer vector");
        MC_STEP("real matrix, int vector ", t);
    }
}

// larger matrices: sizes around powers of two, structured patterns, every operation
MC_SCENARIO(families, 2)
{
    static const int Q[] = {4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257};
    int n = Q[mc::choose(mc::thorough() ? 22 : 19)];
    int f = mc::choose(NFAM);
    int shape = mc::choose(3);
    int r = shape == 1 ? n / 2 + 1 : n, c = shape == 2 ? n / 3 + 1 : n;
    M m = family(f, r, c);
    int order = mc::choose(n <= 65 ? NORD : 3);
    MC_TRACE(r, "x", c, " ", FAM[f], " order ", order);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(n).u(f).u(shape).u(order).u(5));
    int seed = 1 + n % 5;
    for (int t = 0; t < 2; ++t) { auto x = ramp(t ? m.r : m.c, seed); for (int k = VecRet; k <= VecStar; ++k) { apply(s, m, k, t, x, 0, seed); } }
    if (n <= 65) for (int t = 0; t < 3; ++t) { apply(s, m, DenseOut, t, {}, 1 + n % 7, seed); apply(s, m, DenseRet, t, {}, n <= 33 ? n : 2, seed); }
}

// long thin shapes
MC_SCENARIO(long_rows, 2)
{
    int n = mc::pick({300, 511, 512, 513, 1000, 1024, 1025, 2049});
    int which = mc::choose(4), f = mc::pick({2, 6, 8, 10, 1});
    M m = family(f, which == 0 ? 1 : which == 1 ? n : which == 2 ? 3 : n, which == 0 ? n : which == 1 ? 1 : which == 2 ? n : 3);
    int order = mc::choose(3);
    MC_TRACE(m.r, "x", m.c, " ", FAM[f]);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(n).u(which).u(f).u(order).u(6));
    for (int t = 0; t < 2; ++t) { auto x = ramp(t ? m.r : m.c, 1); for (int k = VecRet; k <= VecStar; ++k) { apply(s, m, k, t, x, 0, k); } }
    for (int t = 0; t < 3; ++t) { apply(s, m, DenseOut, t, {}, 2, 1); }
}

// many right-hand-side columns
MC_SCENARIO(many_columns, 2)
{
    int dc = mc::choose(mc::thorough() ? 70 : 36);
    int f = mc::choose(NFAM), t = mc::choose(3), k = DenseRet + mc::choose(2);
    M m = family(f, 4, 5);
    auto s = sparse(m, 1);
    mc::state(mc::Hash().u(dc).u(f).u(t).u(k).u(9));
    MC_TRACE("4x5 ", FAM[f], " with ", dc, " columns");
    apply(s, m, k, t, {}, dc, 3);
}

// histories on ONE matrix object: products interleaved with changes of the matrix
MC_SCENARIO(histories, 3)
{
    int depth = mc::thorough() ? 5 : 4;
    M m(3, 4);
    int f = mc::pick({10, 1, 2});
    m = family(f, 3, 4);
    auto s = sparse(m, f == 1);
    Vector<double> out(7, nan());
    DenseMatrix dout = stale(2, 2);
    MC_TRACE("A = ", m.str());
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(9);
        auto x = ramp(m.c, d), y = ramp(m.r, d + 1);
        switch (op)
        {
        case 0: { s.Mult(vec(x), out); same_vec(out, m.mul(x), "product (reused output)"); break; }
        case 1: { s.MultAT(vec(y), out); same_vec(out, m.T().mul(y), "transposed product (reused output)"); break; }
        case 2: { M b = family(2, m.c, 2, d); s.Mult(dense(b), dout); same_dense(dout, m.mul(b), "dense product (reused output)"); break; }
        case 3: { M b = family(2, m.r, 3, d); s.MultAT(dense(b), dout); same_dense(dout, m.T().mul(b), "transposed dense product (reused output)"); break; }
        case 4: { M b = family(2, m.c, 3, d); s.MultCT(dense(b), dout); same_dense(dout, m.mul(b).T(), "C-transposed product (reused output)"); break; }
        case 5: { s *= 2.0; for (auto& v : m.a) { v *= 2; } break; }
        case 6: { if (s.nnz()) { int k = s.nnz() - 1; s.GetData()[k] += 5; for (int i = m.r - 1, done = 0; i >= 0 && !done; --i) { auto ix = s.GetIndices(i); if (!ix.empty()) { m(i, ix.back()) += 5; done = 1; } } } break; }
        case 7: { m = family(m.r == 3 ? 3 : f, m.r == 3 ? 5 : 3, m.r == 3 ? 2 : 4, d); s = sparse(m, d % 3); break; }
        case 8: { SparseMatrix<double> t(s); SparseMatrix<double> u(std::move(t)); s = std::move(u); break; }
        }
        MC_STEP("op ", op);
        mc::state(mc::Hash().u(m.hash()).u(op).u(d));
    }
    all_ops(s, m, 2);
}

// entries of unusual magnitude and precision
MC_SCENARIO(magnitudes, 3)
{
    int r = mc::pick({1, 2, 3, 5, 9}), c = mc::pick({1, 2, 4, 8}), f = mc::choose(NFAM), mode = mc::choose(NMAG), order = mc::choose(3);
    M m = magnified(family(f, r, c), mode);
    MC_TRACE("A = ", m.str(), " magnitude ", mode);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(m.hash()).u(order).u(13));
    all_ops(s, m, 1 + order);
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    int k = mc::choose(huge::SHAPES), order = mc::choose(2), form = mc::choose(4); huge::H h = huge::make(k, 1), t = h.T(); auto s = huge::sparse(h, order); const Operator& op = s;
    auto x = iramp(h.c, 1), y = iramp(h.r, 2); auto vx = vec(x), vy = vec(y); auto wx = h.mul(x), wy = t.mul(y);
    switch (form)
    {
    case 0: huge::same_long(s.Mult(vx), wx, "product"); huge::same_long(s.MultAT(vy), wy, "transposed product"); break;
    case 1: { Vector<double> o(h.r, nan()), q(h.c, nan()); s.Mult(vx, VectorView<double>(o)); s.MultAT(vy, VectorView<double>(q)); huge::same_long(o, wx, "product into a view"); huge::same_long(q, wy, "transposed product into a view"); break; }
    case 2: { Vector<double> o, q(3); op.Mult(vx, o); op.MultAT(vy, q); huge::same_long(o, wx, "operator product"); huge::same_long(q, wy, "transposed operator product"); break; }
    default:
        {
            DenseMatrix d(h.c, 2), e(h.r, 2), o, q; for (int j = 0; j < 2; ++j) { for (int i = 0; i < h.c; ++i) { d(i, j) = x[(i + j) % h.c]; } for (int i = 0; i < h.r; ++i) { e(i, j) = y[(i + j) % h.r]; } }
            s.Mult(d, o); s.MultAT(e, q); MC_CHECK(o.Rows() == h.r && o.Cols() == 2 && q.Rows() == h.c && q.Cols() == 2, "shape of a product with a dense matrix");
            for (int j = 0; j < 2; ++j)
            {
                std::vector<double> dj(h.c), ej(h.r), oj(h.r), qj(h.c); for (int i = 0; i < h.c; ++i) { dj[i] = d(i, j); qj[i] = q(i, j); } for (int i = 0; i < h.r; ++i) { ej[i] = e(i, j); oj[i] = o(i, j); }
                huge::same_long(oj, h.mul(dj), "product with a dense matrix"); huge::same_long(qj, t.mul(ej), "transposed product with a dense matrix");
            }
        }
    }
    huge::same(s, h, "matrix"); mc::state(mc::Hash().u(k).u(order).u(form).u(501)); MC_STEP(h.r, "x", h.c, " order ", order, " form ", form);
}

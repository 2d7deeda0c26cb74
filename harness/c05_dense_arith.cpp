// C05: dense products (four transposed kinds), matrix-vector products, entrywise arithmetic, equality.
#include "lin.hpp"
using namespace lin;
namespace
{
const char* KIND[] = {"A B", "A^T B", "A B^T", "A^T B^T"};
M full(int r, int c, int seed) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m.set(i, j, cell(i, j, seed)); } return m; }
M prod(int kind, const M& a, const M& b) { M x = (kind & 1) ? a.T() : a, y = (kind & 2) ? b.T() : b; return x.mul(y); }
void call(int kind, const DenseMatrix& a, const DenseMatrix& b, DenseMatrix& o)
{ switch (kind) { case 0: a.Mult(b, o); break; case 1: a.MultAT(b, o); break; case 2: a.MultBT(b, o); break; default: a.MultABT(b, o); } }
DenseMatrix call(int kind, const DenseMatrix& a, const DenseMatrix& b)
{ switch (kind) { case 0: return a.Mult(b); case 1: return a.MultAT(b); case 2: return a.MultBT(b); default: return a.MultABT(b); } }
DenseMatrix junk(int r, int c) { return DenseMatrix(r, c, std::vector<double>(r * c, nan())); }

void products(int kind, const M& ma, const M& mb)
{
    auto a = dense(ma), b = dense(mb);
    M want = prod(kind, ma, mb);
    same_dense(call(kind, a, b), want, mc::S(KIND[kind], " returned"));
    for (int p = 0; p < 5; ++p)
    {
        DenseMatrix o = p == 0 ? DenseMatrix() : p == 1 ? junk(want.r, want.c) : p == 2 ? junk(want.r + 2, want.c + 1) : p == 3 ? junk(want.c, want.r) : junk(1, 1);
        call(kind, a, b, o);
        same_dense(o, want, mc::S(KIND[kind], " into an output of previous kind ", p));
        if (p == 2) { call(kind, a, b, o); same_dense(o, want, mc::S(KIND[kind], " into the same output again")); }
    }
    same_dense(a, ma, "left operand"); same_dense(b, mb, "right operand");
    MC_STEP(KIND[kind], " with A=", ma.str(), " B=", mb.str());
}
template <typename T>
void matvec(const M& ma)
{
    auto a = dense(ma);
    auto xs = iramp(ma.c, 1), ys = iramp(ma.r, 2);
    auto x = vec<T>(xs), y = vec<T>(ys);
    auto w = ma.mul(xs), wt = ma.T().mul(ys);
    const VectorView<T>& xv = x;
    const VectorView<T>& yv = y;
    same_vec(a.Mult(xv), w, "A x returned");
    same_vec(a.MultAT(yv), wt, "A^T y returned");
    { Vector<double> o(ma.r, nan()); a.template Mult<T, double>(xv, o); same_vec(o, w, "A x into a view"); }
    { Vector<double> o(ma.c, nan()); a.template MultAT<T, double>(yv, o); same_vec(o, wt, "A^T y into a view"); }
    { Vector<int> o(ma.r, 77); a.template Mult<T, int>(xv, o); same_vec(o, w, "A x into an integer view"); }
    { Vector<int> o(ma.c, 77); a.template MultAT<T, int>(yv, o); same_vec(o, wt, "A^T y into an integer view"); }
    same_vec(x, xs, "input of A x"); same_vec(y, ys, "input of A^T y");
    same_dense(a, ma, "matrix");
}
void matvec_op(const M& ma)
{
    auto a = dense(ma);
    const Operator& op = a;
    auto xs = ramp(ma.c, 1), ys = ramp(ma.r, 2);
    auto x = vec(xs), y = vec(ys);
    auto w = ma.mul(xs), wt = ma.T().mul(ys);
    for (int extra : {-1, 0, 2})
    {
        { Vector<double> o(std::max(0, ma.r + extra), nan()); a.Mult(x, o); same_vec(o, w, "A x into a vector of another size"); }
        { Vector<double> o(std::max(0, ma.r + extra), nan()); op.Mult(x, o); same_vec(o, w, "Operator A x into a vector of another size"); }
        { Vector<double> o(std::max(0, ma.c + extra), nan()); a.MultAT(y, o); same_vec(o, wt, "A^T y into a vector of another size"); }
        { Vector<double> o(std::max(0, ma.c + extra), nan()); op.MultAT(y, o); same_vec(o, wt, "Operator A^T y into a vector of another size"); }
    }
    same_vec(op.Mult(x), w, "Operator A x"); same_vec(op.MultAT(y), wt, "Operator A^T y");
    { Vector<double> o(ma.r, nan()); op.Mult(x, VectorView<double>(o)); same_vec(o, w, "Operator A x into a view"); }
    { Vector<double> o(ma.c, nan()); op.MultAT(y, VectorView<double>(o)); same_vec(o, wt, "Operator A^T y into a view"); }
    double ip = 0; for (int i = 0; i < ma.r; ++i) { ip += ys[i] * w[i]; }
    MC_CHECK(a.InnerProduct(x, y) == ip, "y^T A x is ", a.InnerProduct(x, y), " expected ", ip);
    MC_CHECK(op.Rows() == ma.r && op.Cols() == ma.c, "operator shape");
}
M ew(const M& a, const M& b, int op)
{ M o(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { o.set(i, j, op == 0 ? a(i, j) + b(i, j) : a(i, j) - b(i, j)); } return o; }
M sc(const M& a, int op, double s)
{ M o(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { double v = a(i, j); o.set(i, j, op == 0 ? v * s : op == 1 ? v / s : s / v); } return o; }
template <typename V> V mk(const std::vector<double>& d) { V v(d.size()); for (size_t i = 0; i < d.size(); ++i) { v[i] = d[i]; } return v; }
M scaled(const M& a, int what, const std::vector<double>& s)
{
    M o = a;
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j)
        { double v = a(i, j); o(i, j) = what == 0 ? v * s[i] : what == 1 ? v * s[j] : what == 2 ? v / s[i] : v / s[j]; }
    return o;
}
template <typename V>
void scale_with(DenseMatrix& d, int what, const std::vector<double>& s)
{
    V v = mk<V>(s);
    switch (what) { case 0: d.ScaleRows(v); break; case 1: d.ScaleCols(v); break; case 2: d.InverseScaleRows(v); break; default: d.InverseScaleCols(v); }
    for (size_t i = 0; i < s.size(); ++i) { MC_CHECK((double)v[i] == s[i], "scaling vector changed"); }
}
// the powers of two keep divisions exact
std::vector<double> pow2(int n, int seed) { std::vector<double> v(n); static const double p[] = {2, -4, 0.5, 8, -1, 16, 0.25}; for (int i = 0; i < n; ++i) { v[i] = p[(i + seed) % 7]; } return v; }
std::vector<double> ipow2(int n, int seed) { std::vector<double> v(n); static const double p[] = {2, -4, 1, 8, -1, 16}; for (int i = 0; i < n; ++i) { v[i] = p[(i + seed) % 6]; } return v; }
void reductions(const M& ma)
{
    auto a = dense(ma);
    if (ma.r * ma.c > 0)
    {
        double s = 0, mx = ma.a[0], mn = ma.a[0];
        for (double v : ma.a) { s += v; mx = std::max(mx, v); mn = std::min(mn, v); }
        MC_CHECK(a.Sum() == s, "Sum ", a.Sum(), " expected ", s);
        MC_CHECK(a.Max() == mx, "Max ", a.Max(), " expected ", mx);
        MC_CHECK(a.Min() == mn, "Min ", a.Min(), " expected ", mn);
    }
    if (ma.r == ma.c)
    {
        std::vector<double> want; for (int i = 0; i < ma.r; ++i) { want.push_back(ma(i, i)); }
        same_vec(a.GetDiag(), want, "diagonal");
        std::vector<double> d(ma.r, nan()); a.GetDiag(d); same_vec(d, want, "diagonal into an array");
    }
    same_dense(a, ma, "matrix after reductions");
}
}

MC_SCENARIO(every_product, 8)
{
    int kind = mc::choose(4), m = mc::choose(4), k = mc::choose(4), n = mc::choose(4);
    int cells = m * k + k * n;
    if (cells > (mc::thorough() ? 15 : 12)) { mc::prune(); }
    M a = choose_pattern(m, k), b = choose_pattern(k, n, 3);
    if (kind & 1) { a = a.T(); }
    if (kind & 2) { b = b.T(); }
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(kind));
    products(kind, a, b);
}
MC_SCENARIO(every_shape, 8)
{
    int N = mc::thorough() ? 9 : 7;
    int kind = mc::choose(4), m = mc::choose(N), k = mc::choose(N), n = mc::choose(N);
    M a = full(m, k, 1), b = full(k, n, 2);
    if (kind & 1) { a = a.T(); }
    if (kind & 2) { b = b.T(); }
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(kind));
    products(kind, a, b);
}
MC_SCENARIO(large_products, 6)
{
    std::vector<int> n = {1, 2, 8, 15, 16, 17, 33, 65};
    if (mc::thorough()) { n.push_back(127); n.push_back(130); }
    int kind = mc::choose(4), m = mc::pick(n), k = mc::pick(n), c = mc::pick(n), f = mc::choose(3);
    M a = family(f == 0 ? 2 : f == 1 ? 9 : 10, m, k, 1), b = family(f == 0 ? 2 : f == 1 ? 6 : 3, k, c, 2);
    M want = a.mul(b);
    auto da = dense((kind & 1) ? a.T() : a), db = dense((kind & 2) ? b.T() : b);
    DenseMatrix o = junk(3, 2);
    call(kind, da, db, o);
    same_dense(o, want, KIND[kind]);
    same_dense(call(kind, da, db), want, KIND[kind]);
    mc::state(mc::Hash().u(kind).u(m).u(k).u(c).u(f));
    MC_STEP(KIND[kind], " ", m, "x", k, "x", c, " family ", f);
}
MC_SCENARIO(matrix_vector, 8)
{
    int r = mc::choose(5), c = mc::choose(5);
    if (r * c > (mc::thorough() ? 16 : 12)) { mc::prune(); }
    M a = choose_pattern(r, c);
    for (double& v : a.a) { if (v == 0.5) { v = 53; } }
    mc::state(a.hash());
    int w = mc::choose(3);
    if (w == 0) { matvec<double>(a); }
    else if (w == 1) { matvec<int>(a); }
    else { matvec_op(a); }
    MC_STEP("matrix-vector products ", w, " of ", a.str());
}
MC_SCENARIO(every_value, 8)
{
    std::vector<double> vals = {0, 1, -1, 2, -3, 0.5, -0.0};
    int r = 1 + mc::choose(2), c = 1 + mc::choose(2);
    M a(r, c), b(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { a.set(i, j, mc::pick(vals)); }
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { b.set(i, j, r * c == 4 ? cell(i, j, 5) : mc::pick(vals)); }
    mc::state(mc::Hash().u(a.hash()).u(b.hash()));
    auto da = dense(a), db = dense(b);
    same_dense(da + db, ew(a, b, 0), "A + B"); same_dense(da - db, ew(a, b, 1), "A - B");
    if (r == c)
    {
        same_dense(da.Mult(db), a.mul(b), "A B"); same_dense(da.MultAT(db), a.T().mul(b), "A^T B");
        same_dense(da.MultBT(db), a.mul(b.T()), "A B^T"); same_dense(da.MultABT(db), a.T().mul(b.T()), "A^T B^T");
    }
    bool same = true; for (size_t i = 0; i < a.a.size(); ++i) { same &= std::fabs(a.a[i] - b.a[i]) <= 1e-12; }
    MC_CHECK((da == db) == same, "A == B is ", da == db, " for ", a.str(), " and ", b.str());
    reductions(a);
    MC_STEP("sums of ", a.str(), " and ", b.str());
}
MC_SCENARIO(entrywise, 8)
{
    int r = mc::choose(5), c = mc::choose(5), what = mc::choose(18);
    M a = full(r, c, 1), b = full(r, c, 2);
    mc::state(mc::Hash().u(r).u(c).u(what));
    auto da = dense(a), db = dense(b);
    switch (what)
    {
    case 0: same_dense(da + db, ew(a, b, 0), "A + B"); break;
    case 1: same_dense(da - db, ew(a, b, 1), "A - B"); break;
    case 2: { auto& x = (da += db); MC_CHECK(&x == &da, "A += B does not return A"); same_dense(da, ew(a, b, 0), "A += B"); da = dense(a); break; }
    case 3: { auto& x = (da -= db); MC_CHECK(&x == &da, "A -= B does not return A"); same_dense(da, ew(a, b, 1), "A -= B"); da = dense(a); break; }
    case 4: for (double s : {0., 1., -2., 0.5}) { same_dense(da * s, sc(a, 0, s), "A * s"); } break;
    case 5: for (double s : {0., 1., -2., 0.5}) { same_dense(s * da, sc(a, 0, s), "s * A"); } break;
    case 6: for (double s : {1., -2., 0.5}) { same_dense(da / s, sc(a, 1, s), "A / s"); } break;
    case 7: for (double s : {1., -2., 0.5, 0.}) { same_dense(s / da, sc(a, 2, s), "s / A"); } break;
    case 8: for (double s : {-2., 0.5, 0.}) { da = dense(a); auto& x = (da *= s); MC_CHECK(&x == &da, "A *= s does not return A"); same_dense(da, sc(a, 0, s), "A *= s"); } da = dense(a); break;
    case 9: for (double s : {-2., 0.5}) { da = dense(a); auto& x = (da /= s); MC_CHECK(&x == &da, "A /= s does not return A"); same_dense(da, sc(a, 1, s), "A /= s"); } da = dense(a); break;
    case 10: for (double s : {-2., 0.}) { auto& x = (da = s); MC_CHECK(&x == &da, "A = s does not return A"); M w(r, c); for (double& v : w.a) { v = s; } same_dense(da, w, "A = s"); } da = dense(a); break;
    case 11: da += da; same_dense(da, sc(a, 0, 2), "A += A"); da = dense(a); da -= da; same_dense(da, sc(a, 0, 0), "A -= A"); da = dense(a); same_dense(da + da, sc(a, 0, 2), "A + A"); break;
    case 12: case 13: case 14: case 15:
        {
            int w = what - 12, n = (w & 1) ? c : r;
            { auto d = dense(a); scale_with<std::vector<double>>(d, w, pow2(n, r)); same_dense(d, scaled(a, w, pow2(n, r)), mc::S("scaling ", w, " by an array")); }
            { auto d = dense(a); scale_with<Vector<double>>(d, w, pow2(n, c)); same_dense(d, scaled(a, w, pow2(n, c)), mc::S("scaling ", w, " by a vector")); }
            { auto d = dense(a); scale_with<std::vector<int>>(d, w, ipow2(n, c)); same_dense(d, scaled(a, w, ipow2(n, c)), mc::S("scaling ", w, " by integers")); }
            { auto d = dense(a); scale_with<Vector<int>>(d, w, ipow2(n, r)); same_dense(d, scaled(a, w, ipow2(n, r)), mc::S("scaling ", w, " by an integer vector")); }
            break;
        }
    case 16: reductions(a); break;
    default:
        {
            std::vector<DenseMatrix> l; l.push_back(da); l.push_back(DenseMatrix(2, 3)); l.push_back(db);
            MC_CHECK(SumCols(l) == 2 * c + 3 && SumRows(l) == 2 * r + 2 && SumCols(std::vector<DenseMatrix>()) == 0 && SumRows(std::vector<DenseMatrix>()) == 0, "SumCols/SumRows");
        }
    }
    same_dense(da, a, "left operand"); same_dense(db, b, "right operand");
    MC_STEP("operation ", what, " on ", r, "x", c);
}
// equality: every shape pair, one differing entry at every position, differences around the tolerance
MC_SCENARIO(equality, 8)
{
    int r = mc::choose(4), c = mc::choose(4);
    M a = full(r, c, 1);
    auto da = dense(a);
    MC_CHECK(da == dense(a), "a matrix does not equal its copy");
    int r2 = mc::choose(4), c2 = mc::choose(4);
    if (r2 != r || c2 != c) { MC_CHECK(!(da == DenseMatrix(r2, c2)), "matrices of different shapes are equal"); DenseMatrix z(r, c), z2(r2, c2); MC_CHECK(!(z == z2), "zero matrices of different shapes are equal"); mc::state(mc::Hash().u(r).u(c).u(r2).u(c2)); MC_STEP("== ", r, "x", c, " vs ", r2, "x", c2); return; }
    if (r * c == 0) { return; }
    int i = mc::choose(r), j = mc::choose(c);
    double d = mc::pick({0.5e-12, -0.5e-12, 4e-12, -4e-12, 1e-9, -1., 1e300});
    DenseMatrix z(r, c), w(r, c); w(i, j) = d;
    bool want = std::fabs(d) <= 1e-12;
    MC_CHECK((z == w) == want && (w == z) == want, "matrices differing by ", d, " at (", i, ",", j, ") compare ", z == w);
    auto db = dense(a); if (std::fabs(d) >= 1e-9 || true) { db(i, j) += d; bool wb = std::fabs(db(i, j) - a(i, j)) <= 1e-12; MC_CHECK((da == db) == wb, "matrices differing by ", d, " at (", i, ",", j, ") compare ", da == db); }
    mc::state(mc::Hash().u(r).u(c).u(i).u(j).d(d));
    MC_STEP("== with difference ", d, " at ", i, ",", j);
}
// histories: a pool of three matrices, every sequence of operations that combine them in place or into each other
MC_SCENARIO(histories, 4)
{
    int depth = mc::thorough() ? 5 : 4;
    std::vector<M> m = {full(2, 3, 1), full(3, 2, 2), full(2, 2, 3)};
    std::vector<DenseMatrix> d; for (auto& x : m) { d.push_back(dense(x)); }
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(10);
        if (op < 4)
        {
            int i = mc::choose(3), j = mc::choose(3);
            int k = 3 - i - j; if (i == j || k < 0 || k > 2) { k = (i + 1) % 3; }
            M x = (op & 1) ? m[i].T() : m[i], y = (op & 2) ? m[j].T() : m[j];
            if (x.c != y.r) { mc::prune(); }
            call(op, d[i], d[j], d[k]); m[k] = x.mul(y);
            MC_STEP("d", k, " = ", KIND[op], " of d", i, " and d", j);
        }
        else if (op < 6)
        {
            int i = mc::choose(3), j = mc::choose(3);
            if (m[i].r != m[j].r || m[i].c != m[j].c) { mc::prune(); }
            if (op == 4) { d[i] += d[j]; m[i] = ew(m[i], M(m[j]), 0); } else { d[i] -= d[j]; m[i] = ew(m[i], M(m[j]), 1); }
            MC_STEP("d", i, op == 4 ? " += d" : " -= d", j);
        }
        else
        {
            int i = mc::choose(3);
            switch (op)
            {
            case 6: d[i] *= -2; m[i] = sc(m[i], 0, -2); break;
            case 7: d[i] = d[i].Transpose(); m[i] = m[i].T(); break;
            case 8: d[i].ScaleRows(ipow2(m[i].r, 1)); m[i] = scaled(m[i], 0, ipow2(m[i].r, 1)); break;
            case 9: d[i].ScaleCols(ipow2(m[i].c, 2)); m[i] = scaled(m[i], 1, ipow2(m[i].c, 2)); break;
            }
            MC_STEP("op ", op, " on d", i);
        }
        mc::Hash h; for (int i = 0; i < 3; ++i) { same_dense(d[i], m[i], mc::S("d", i)); h.u(m[i].hash()); }
        mc::state(h);
    }
}

// entries of unusual magnitude and precision in either operand
MC_SCENARIO(magnitudes, 6)
{
    int kind = mc::choose(4), n = mc::pick({1, 2, 3, 5}), f = mc::pick({2, 10, 6, 11}), mode = mc::choose(NMAG), side = mc::choose(2);
    M a = family(f, n, n + 1, 1), b = family(2, n + 1, n, 2);
    if (side) { b = magnified(b, mode); } else { a = magnified(a, mode); }
    if (kind & 1) { a = a.T(); }
    if (kind & 2) { b = b.T(); }
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(kind).u(3));
    products(kind, a, b);
    matvec_op(side ? b : a);
    M x = side ? b : a, y = magnified(x, (mode + 1) % NMAG);
    auto dx = dense(x), dy = dense(y);
    same_dense(dx + dy, ew(x, y, 0), "A + B"); same_dense(dx - dy, ew(x, y, 1), "A - B");
    same_dense(dx * -2, sc(x, 0, -2), "A * s"); same_dense(dx / 4, sc(x, 1, 4), "A / s");
    reductions(x);
}

// sizes at which an implementation might change its algorithm
MC_SCENARIO(large_shapes, 4)
{
    static const int N[][3] = {{300, 5, 300}, {5, 700, 5}, {1, 5000, 1}, {1030, 1, 40}, {2, 3, 2050}, {257, 257, 3}, {129, 130, 131}, {1, 2, 9000}, {9000, 1, 2}};
    int kind = mc::choose(4), s = mc::choose(9);
    M a = full(N[s][0], N[s][1], 1), b = full(N[s][1], N[s][2], 2);
    if (kind & 1) { a = a.T(); }
    if (kind & 2) { b = b.T(); }
    mc::state(mc::Hash().u(kind).u(s).u(55));
    products(kind, a, b);
}
MC_SCENARIO(large_entrywise, 4)
{
    static const int R[] = {1, 1030, 2, 257, 70000, 65}, C[] = {5000, 3, 2050, 258, 1, 130};
    int s = mc::choose(6), r = R[s], c = C[s], what = mc::choose(9);
    M a = full(r, c, 1), b = full(r, c, 2);
    auto da = dense(a), db = dense(b);
    mc::state(mc::Hash().u(r).u(c).u(what).u(56));
    switch (what)
    {
    case 0: same_dense(da + db, ew(a, b, 0), "A + B"); same_dense(da - db, ew(a, b, 1), "A - B"); { auto d = da; d += db; same_dense(d, ew(a, b, 0), "A += B"); d = da; d -= db; same_dense(d, ew(a, b, 1), "A -= B"); } break;
    case 1: same_dense(da * -2., sc(a, 0, -2), "A * s"); same_dense(-2. * da, sc(a, 0, -2), "s * A"); same_dense(da / 4., sc(a, 1, 4), "A / s"); same_dense(3. / da, sc(a, 2, 3), "s / A"); break;
    case 2: { auto d = da; d *= 3; same_dense(d, sc(a, 0, 3), "A *= s"); d = da; d /= -2; same_dense(d, sc(a, 1, -2), "A /= s"); d = 4.5; M w(r, c); for (double& v : w.a) { v = 4.5; } same_dense(d, w, "A = s"); break; }
    case 3: case 4: case 5: case 6: { int w = what - 3, n = (w & 1) ? c : r; auto d = da; scale_with<std::vector<double>>(d, w, pow2(n, r)); same_dense(d, scaled(a, w, pow2(n, r)), "scaling by an array"); d = da; scale_with<Vector<double>>(d, w, pow2(n, c)); same_dense(d, scaled(a, w, pow2(n, c)), "scaling by a vector"); d = da; scale_with<std::vector<int>>(d, w, ipow2(n, c)); same_dense(d, scaled(a, w, ipow2(n, c)), "scaling by integers"); break; }
    case 7: reductions(a); for (double& v : a.a) { v = std::floor(v); } matvec<double>(a); matvec<int>(a); matvec_op(a); break;
    default:                                            // equality, one entry different at the ends, the middle, and around
        for (int p : {0, 1, 255, 1023, 1024, r * c / 2, r * c - 2, r * c - 1}) { auto d = da; int i = p % r, j = p / r % c; d(i, j) += 1; MC_CHECK(!(d == da) && !(da == d), "matrices that differ at (", i, ",", j, ") are equal"); d(i, j) -= 1; MC_CHECK(d == da, "equal matrices compare different"); }
    }
    MC_STEP("operation ", what, " on ", r, "x", c);
}

// C02: sparse x sparse products, transposes, shared workspaces.
#include "lin.hpp"
#include "huge.hpp"
using namespace lin;
namespace
{
std::vector<int> bad_marker(int kind, int n)
{
    switch (kind)
    {
    case 0: return {};
    case 1: return std::vector<int>(n, 0);
    case 2: return std::vector<int>(n + 3, 1);
    case 3: { std::vector<int> v(n + 1); for (int i = 0; i <= n; ++i) { v[i] = i % 3; } return v; }
    case 4: return std::vector<int>(n, 1000000);
    case 5: return std::vector<int>(n > 1 ? n - 1 : 0, 2);
    default: return std::vector<int>(2 * n + 5, -1);
    }
}
void transposes(const SparseMatrix<double>& s, const M& m)
{
    auto t = s.Transpose();
    same_sparse(t, m.T(), "transpose", true);
    same_sparse(t.Transpose(), m, "transpose of the transpose", true);
    same_dense(s.TransposeDense(), m.T(), "dense transpose");
    DenseMatrix d(m.r + 1, m.c + 2, std::vector<double>((m.r + 1) * (m.c + 2), nan()));
    s.TransposeDense(d);
    same_dense(d, m.T(), "dense transpose into a reused matrix");
    DenseMatrix d2(m.c, m.r, std::vector<double>(m.r * m.c, nan()));
    s.TransposeDense(d2);
    same_dense(d2, m.T(), "dense transpose into a reused matrix of the same shape");
    MC_STEP("transposes of ", m.str());
}
void product(const SparseMatrix<double>& a, const M& ma, const SparseMatrix<double>& b, const M& mb, int kind)
{
    M want = ma.mul(mb);
    auto c = a.Mult(b);
    same_sparse(c, want, "product");
    auto marker = bad_marker(kind, mb.c);
    auto c2 = a.Mult(b, marker);
    same_sparse(c2, want, "product with a caller's workspace");
    auto c3 = a.Mult(b, marker);
    same_sparse(c3, want, "product with the same workspace again");
    MC_STEP("product ", ma.str(), " x ", mb.str(), " workspace ", kind);
}
void same_raw(const SparseMatrix<double>& s, const SparseMatrix<double>& c)
{ MC_CHECK(s.GetIndptr() == c.GetIndptr() && s.GetIndices() == c.GetIndices() && s.GetData() == c.GetData() && s.Rows() == c.Rows() && s.Cols() == c.Cols(), "an operand was changed"); }
}

MC_SCENARIO(every_pair, 8)
{
    int r = mc::choose(4), k = mc::choose(4), c = mc::choose(4);
    int cells = r * k + k * c;
    if (cells > (mc::thorough() ? 18 : 15)) { mc::prune(); }
    int order = cells > 12 ? 1 : mc::choose(2);
    M a = choose_pattern(r, k), b = choose_pattern(k, c, 3);
    auto sa = sparse(a, order), sb = sparse(b, (order + 1) % 2);
    auto ka = sa, kb = sb;
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(order));
    product(sa, a, sb, b, (a.nnz() + b.nnz()) % 7);
    if (cells <= 12)
    {
        auto l = sa.Mult(sb).Transpose();
        auto rr = sb.Transpose().Mult(sa.Transpose());
        same_sparse(l, a.mul(b).T(), "(AB)^T");
        same_sparse(rr, a.mul(b).T(), "B^T A^T");
    }
    same_raw(sa, ka);
    same_raw(sb, kb);
}

MC_SCENARIO(every_transpose, 6)
{
    int r = mc::choose(5), c = mc::choose(5);
    if (r * c > (mc::thorough() ? 16 : 12)) { mc::prune(); }
    M m = choose_pattern(r, c);
    int order = mc::choose(NORD);
    auto s = sparse(m, order);
    auto keep = s;
    mc::state(mc::Hash().u(m.hash()).u(order).u(2));
    transposes(s, m);
    same_raw(s, keep);
}

// explicit zeros, cancellation, negative values, mixed entry types
MC_SCENARIO(values_and_types, 5)
{
    M a = choose_matrix(2, 2, {1, -1, 0}), b = choose_matrix(2, 2, {2, -2, 0});
    int kind = mc::choose(2) * 3;
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(3));
    auto sa = sparse(a, kind ? 1 : 0), sb = sparse(b);
    product(sa, a, sb, b, kind);
    M want = a.mul(b);
    auto ia = sparse<int>(a), ib = sparse<int>(b, 1);
    SparseMatrix<int> ii = ia.Mult(ib);
    same_sparse(ii, want, "integer product");
    M bh = b;
    for (auto& v : bh.a) { v *= 0.25; }
    M wh = a.mul(bh);
    SparseMatrix<double> id = ia.Mult(sparse(bh));
    same_sparse(id, wh, "integer times real product");
    M ah = a;
    for (auto& v : ah.a) { v *= 0.5; }
    SparseMatrix<double> di = sparse(ah).Mult(ib);
    same_sparse(di, ah.mul(b), "real times integer product");
    same_sparse(ia.Transpose(), a.T(), "integer transpose", true);
    same_sparse(ia.Transpose<double>(), a.T(), "integer transpose into reals", true);
    same_sparse(sa.Mult(sa), a.mul(a), "A times itself");
    same_dense(ia.TransposeDense(), a.T(), "dense transpose of integers");
    std::vector<int> marker = bad_marker(kind, 2);
    same_sparse(ia.Mult(sparse(bh), marker), wh, "integer times real product with workspace");
    MC_STEP("types ", a.str(), " ", b.str());
}

// one workspace through every sequence of products of different shapes
MC_SCENARIO(workspace_histories, 4)
{
    static const int SH[8][3] = {{3, 3, 3}, {1, 4, 6}, {5, 2, 2}, {2, 3, 8}, {4, 1, 1}, {3, 5, 4}, {6, 6, 3}, {2, 2, 5}};
    std::vector<int> marker = bad_marker(mc::choose(3), 4);
    int depth = mc::thorough() ? 5 : 4;
    uint64_t h = 0;
    for (int d = 0; d < depth; ++d)
    {
        int p = mc::choose(8), f = d % 2 ? 2 : mc::pick({2, 10});
        M a = family(f, SH[p][0], SH[p][1], d), b = family(2, SH[p][1], SH[p][2], d + 7);
        auto sa = sparse(a, d % 3), sb = sparse(b, 1);
        same_sparse(sa.Mult(sb, marker), a.mul(b), "product with a shared workspace");
        MC_STEP("product ", a.r, "x", a.c, " * ", b.r, "x", b.c, ", workspace size now ", marker.size());
        h = mc::Hash().u(h).u(p).u(f);
        mc::state(h);
    }
}

// chains on one object: A <- A*B, A <- A^T, ...
MC_SCENARIO(chains, 4)
{
    M m = family(mc::pick({1, 6, 10, 3}), 4, 4);
    auto s = sparse(m, 1);
    std::vector<int> marker;
    int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(5);
        for (auto& v : m.a) { if (std::fabs(v) > 1e12) { mc::prune(); } }
        switch (op)
        {
        case 0: m = m.T(); s = s.Transpose(); break;
        case 1: { M b = family(1, m.c, 3, d); m = m.mul(b); s = s.Mult(sparse(b, 1), marker); break; }
        case 2: { M b = family(6, 4, m.r, d); m = b.mul(m); s = sparse(b).Mult(s); break; }
        case 3: { m = m.T().mul(m); s = s.Transpose().Mult(s, marker); break; }
        case 4: { s.SortIndices(); s *= -1.0; for (auto& v : m.a) { v = -v; } break; }
        }
        MC_STEP("op ", op);
        same_sparse(s, m, "chain of products and transposes");
        mc::state(m.hash());
    }
}

MC_SCENARIO(families, 3)
{
    static const int Q[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 130, 257};
    int n = Q[mc::choose(mc::thorough() ? 18 : 14)];
    int f = mc::choose(NFAM), g = mc::choose(NFAM);
    int shape = mc::choose(n <= 33 ? 3 : 2);
    int r = shape == 1 ? n / 2 + 1 : n, k = n, c = shape == 2 ? n / 3 + 1 : shape == 1 ? n + 3 : n;
    if (n > 40 && (f == 2 || g == 2) && f != g) { mc::prune(); }
    M a = family(f, r, k, 1), b = family(g, k, c, 2);
    mc::state(mc::Hash().u(n).u(f).u(g).u(shape).u(11));
    auto sa = sparse(a, f % 3), sb = sparse(b, g % 3);
    product(sa, a, sb, b, (f + g) % 7);
    transposes(sa, a);
}

MC_SCENARIO(long_thin, 2)
{
    int n = mc::pick({300, 511, 513, 1000, 1024, 1025, 2000});
    int f = mc::pick({2, 6, 10, 8}), w = mc::choose(2);
    M a = family(f, w ? n : 3, w ? 3 : n, 1), b = family(2, w ? 3 : n, w ? 4 : 3, 2);
    mc::state(mc::Hash().u(n).u(f).u(w).u(12));
    auto sa = sparse(a, 2), sb = sparse(b, 1);
    product(sa, a, sb, b, 3);
    transposes(sa, a);
    if (!w) { M at = a.T(); product(sparse(at, 1), at, sparse(family(2, 3, 2, 4)), family(2, 3, 2, 4), 5); }
}

// entries of unusual magnitude and precision in either factor
MC_SCENARIO(magnitudes, 3)
{
    int n = mc::pick({1, 2, 3, 5, 9}), f = mc::choose(NFAM), g = mc::choose(NFAM), mode = mc::choose(NMAG), side = mc::choose(2);
    M a = family(f, n, n + 1, 1), b = family(g, n + 1, n, 2);
    if (side) { b = magnified(b, mode); } else { a = magnified(a, mode); }
    mc::state(mc::Hash().u(a.hash()).u(b.hash()).u(14));
    auto sa = sparse(a, f % 3), sb = sparse(b, g % 3);
    product(sa, a, sb, b, (f + g) % 7);
    transposes(side ? sb : sa, side ? b : a);
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    int k = mc::choose(huge::SHAPES), order = mc::choose(2), form = mc::choose(5); huge::H a = huge::make(k, 1), t = a.T(); auto s = huge::sparse(a, order);
    switch (form)
    {
    case 0: huge::same(s.Transpose(), t, "transpose"); huge::same(s.Transpose().Transpose(), a, "transpose of the transpose"); break;
    case 1: huge::same(s.Mult(huge::sparse(t)), a.mul(t), "product with the transpose"); break;
    case 2: huge::same(s.Transpose().Mult(s), t.mul(a), "product of the transpose with the matrix"); break;
    case 3: { std::vector<int> marker; auto p = s.Mult(huge::sparse(t), marker); auto q = s.Transpose().Mult(s, marker); huge::same(p, a.mul(t), "product with a workspace"); huge::same(q, t.mul(a), "second product with the workspace"); break; }
    default: { auto si = huge::sparse<int>(a, order); huge::same(si.Mult(huge::sparse<int>(t)), a.mul(t), "integer product"); huge::same(si.Transpose<double>(), t, "transpose of an integer matrix"); }
    }
    huge::same(s, a, "matrix"); mc::state(mc::Hash().u(k).u(order).u(form).u(502)); MC_STEP(a.r, "x", a.c, " order ", order, " form ", form);
}

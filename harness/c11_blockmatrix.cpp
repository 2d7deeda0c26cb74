// C11: block matrices against the monolithic matrix.
#include "lin.hpp"
#include "huge.hpp"
#include "blockmatrix.hpp"
using namespace lin;
namespace
{
typedef std::vector<int> V;
V offsets(const V& sizes) { V o(1, 0); for (int s : sizes) { o.push_back(o.back() + s); } return o; }
int magnitude = -1;                                          // of the entries of every block
// contents of a block by kind: 1 full, 2 checkered, 3 last entry only, 4 stored but empty
M content(int kind, int r, int c, int seed)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
        { if (kind == 1 || (kind == 2 && (i + j + seed) % 2 == 0) || (kind == 3 && i == r - 1 && j == c - 1)) { m.set(i, j, 1 + ((i * 7 + j * 3 + seed * 5) % 23) * (((i + j) & 1) ? -1 : 1)); } }
    if (magnitude >= 0) { return magnified(m, magnitude); }
    return m;
}
struct Model
{
    V ro, co; std::vector<M> b; std::vector<char> set;
    int nr() const { return (int)ro.size() - 1; }
    int nc() const { return (int)co.size() - 1; }
    Model(const V& r, const V& c) : ro(r), co(c), b((r.size() - 1) * (c.size() - 1)), set((r.size() - 1) * (c.size() - 1), 0) {}
    M whole() const
    {
        M m(ro.back(), co.back());
        for (int i = 0; i < nr(); ++i) for (int j = 0; j < nc(); ++j) if (set[i * nc() + j])
                { const M& x = b[i * nc() + j]; for (int p = 0; p < x.r; ++p) for (int q = 0; q < x.c; ++q) if (x.s(p, q)) { m.set(ro[i] + p, co[j] + q, x(p, q)); } }
        return m;
    }
    Model T() const { Model t(co, ro); for (int i = 0; i < nr(); ++i) for (int j = 0; j < nc(); ++j) { t.b[j * nr() + i] = b[i * nc() + j].T(); t.set[j * nr() + i] = set[i * nc() + j]; } return t; }
    uint64_t hash() const { mc::Hash h; h.c(ro).c(co); for (size_t k = 0; k < b.size(); ++k) { h.u(set[k]); if (set[k]) { h.u(b[k].hash()); } } return h; }
};
template <typename T>
void check(const BlockMatrix<T>& B, const Model& m, bool deep)
{
    M w = m.whole();
    MC_CHECK(B.Rows() == w.r && B.Cols() == w.c, "shape ", B.Rows(), "x", B.Cols(), " expected ", w.r, "x", w.c);
    MC_CHECK(B.GetRowOffsets() == m.ro && B.GetColOffsets() == m.co, "offsets ", B.GetRowOffsets(), B.GetColOffsets());
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j)
        {
            const auto& g = B.GetBlock(i, j);
            if (m.set[i * m.nc() + j]) { same_sparse(g, m.b[i * m.nc() + j], mc::S("block ", i, ",", j), true); }
            else { MC_CHECK(g.nnz() == 0, "unset block ", i, ",", j, " has entries"); }
        }
    const Operator& op = B;
    auto xs = iramp(w.c, 1), ys = iramp(w.r, 2);
    auto x = vec(xs), y = vec(ys);
    auto wx = w.mul(xs), wy = w.T().mul(ys);
    same_vec(op.Mult(x), wx, "product"); same_vec(op.MultAT(y), wy, "transposed product");
    { Vector<double> o(w.r, nan()); B.Mult(x, VectorView<double>(o)); same_vec(o, wx, "product into a view"); }
    { Vector<double> o(w.c, nan()); B.MultAT(y, VectorView<double>(o)); same_vec(o, wy, "transposed product into a view"); }
    { Vector<double> o(w.r + 1, nan()); B.Mult(x, o); same_vec(o, wx, "product into a vector of another size"); }
    { Vector<double> o(std::max(0, w.c - 1), nan()); op.MultAT(y, o); same_vec(o, wy, "transposed product into a vector of another size"); }
    same_vec(x, xs, "input"); same_vec(y, ys, "input");
    auto c = B.Combine();
    same_sparse(c, w, "combined matrix", true);
    if (deep)
    {
        double ip = 0; for (int i = 0; i < w.r; ++i) { ip += ys[i] * wx[i]; }
        MC_CHECK(B.InnerProduct(x, y) == ip, "y^T A x");
        auto t = B.Transpose();
        check(t, m.T(), false);
        same_sparse(t.Transpose().Combine(), w, "transpose of the transpose", true);
        std::ostringstream a, b2; B.PrintDense("x", a); sparse<T>(w).PrintDense("x", b2); MC_CHECK(a.str() == b2.str(), "PrintDense differs from the dense print of the whole matrix");
    }
}
template <typename T> SparseMatrix<T> blk(const M& m, int seed) { return sparse<T>(m, seed % 3); }
template <typename T> void setb(BlockMatrix<T>& B, Model& m, int i, int j, int kind, int seed)
{
    int r = m.ro[i + 1] - m.ro[i], c = m.co[j + 1] - m.co[j];
    M x = content(kind, r, c, seed);
    auto s = blk<T>(x, seed);
    if (seed % 2) { B.SetBlock(i, j, s); same_sparse(s, x, "block given", true); } else { B.SetBlock(i, j, std::move(s)); }
    m.b[i * m.nc() + j] = x; m.set[i * m.nc() + j] = 1;
}
V choose_sizes(int n, const V& al) { V s(n); for (int& x : s) { x = mc::pick(al); } return s; }
template <typename T>
void every(const V& rs, const V& cs, bool square, int kinds)
{
    V ro = offsets(rs), co = offsets(cs);
    Model m(ro, co);
    BlockMatrix<T> B = square ? BlockMatrix<T>(ro) : BlockMatrix<T>(ro, co);
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { int k = mc::choose(kinds); if (k) { setb(B, m, i, j, k, i * 3 + j + 1); } }
    mc::state(m.hash());
    check(B, m, true);
    MC_STEP("block matrix ", ro, " x ", co, " = ", m.whole().str());
}
}
MC_SCENARIO(two_by_two, 8)
{
    V al = {0, 1, 2, 3}; if (!mc::thorough()) { al = {0, 1, 3}; }
    V rs = choose_sizes(2, al), cs = choose_sizes(2, al);
    if (mc::choose(8) == 0) { every<int>(rs, cs, false, 4); } else { every<double>(rs, cs, rs == cs, 4); }
}
MC_SCENARIO(one_and_three, 8)
{
    int nr = 1 + mc::choose(3), nc = 1 + mc::choose(3);
    if (nr * nc > (mc::thorough() ? 9 : 6)) { mc::prune(); }
    V rs = choose_sizes(nr, {0, 1, 2}), cs = choose_sizes(nc, {0, 1, 2});
    every<double>(rs, cs, false, nr * nc <= 3 ? 5 : 2);
}
MC_SCENARIO(three_by_three, 8)
{
    V rs = mc::pick(std::vector<V> {{1, 2, 1}, {2, 0, 1}, {2, 2, 2}}), cs = mc::pick(std::vector<V> {{2, 1, 2}, {0, 3, 1}, {1, 1, 1}});
    every<double>(rs, cs, rs == cs, 2);
}
MC_SCENARIO(large_blocks, 5)
{
    static const std::vector<V> S = {{5, 0, 7}, {16, 1, 17}, {1}, {40}, {3, 3, 3, 3, 3}, {0}, {0, 0, 9}};
    V rs = mc::pick(S), cs = mc::pick(S);
    V ro = offsets(rs), co = offsets(cs); Model m(ro, co); BlockMatrix<double> B(ro, co);
    int pat = mc::choose(8), kind = 1 + mc::choose(4);
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { if ((pat == 0) || (pat == 1 && i == j) || (pat == 2 && i != j) || (pat == 3 && i == m.nr() - 1) || (pat == 4 && j == m.nc() - 1) || (pat == 5 && (i + j) % 2) || (pat == 6 && i <= j)) { setb(B, m, i, j, kind, i + j); } }
    mc::state(m.hash());
    check(B, m, true);
    MC_STEP("block matrix ", ro, " x ", co, " pattern ", pat, " kind ", kind);
}
MC_SCENARIO(histories, 4)
{
    int lay = mc::choose(3), depth = mc::thorough() ? 4 : 3;
    V ro = lay == 0 ? V{0, 2, 3} : lay == 1 ? V{0, 1, 3} : V{0, 2}, co = lay == 0 ? V{0, 1, 3} : lay == 1 ? V{0, 0, 2} : V{0, 1, 2};
    Model a(ro, co), b(ro, co);
    BlockMatrix<double> A(ro, co), B(ro, co);
    setb(A, a, 0, 0, 1, 1);
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(9);
        switch (op)
        {
        case 0: { int i = mc::choose(a.nr()), j = mc::choose(a.nc()), k = 1 + mc::choose(4); setb(A, a, i, j, k, s + k); break; }
        case 1: { int i = mc::choose(b.nr()), j = mc::choose(b.nc()); setb(B, b, i, j, 1, s); break; }
        case 2: B = A; b = a; break;
        case 3: { BlockMatrix<double> C(A); A = B; B = C; std::swap(a, b); break; }
        case 4: A = A.Transpose(); a = a.T(); break;
        case 5: swap(A, B); std::swap(a, b); break;
        case 6: { BlockMatrix<double> C(std::move(A)); A = std::move(C); break; }
        case 7: A = A; break;
        case 8: { B = std::move(A); b = a; A = BlockMatrix<double>(ro); a = Model(ro, ro); break; }
        }
        check(A, a, s == depth - 1); check(B, b, false);
        mc::state(mc::Hash().u(a.hash()).u(b.hash()));
        MC_STEP("op ", op, " A=", a.whole().str(), " B=", b.whole().str());
    }
}
MC_SCENARIO(default_constructed, 1)
{
    BlockMatrix<double> E; MC_CHECK(E.Rows() == 0 && E.Cols() == 0 && E.GetRowOffsets() == V{0} && E.GetColOffsets() == V{0}, "default constructed block matrix");
    MC_CHECK(E.Combine().Rows() == 0 && E.Transpose().Rows() == 0, "empty block matrix"); mc::state(1); MC_STEP("default");
}

// entries of unusual magnitude and precision
MC_SCENARIO(magnitudes, 4)
{
    V rs = choose_sizes(2, {0, 1, 3}), cs = choose_sizes(2, {0, 1, 2});
    magnitude = mc::choose(NMAG);
    struct Reset { ~Reset() { magnitude = -1; } } reset;
    every<double>(rs, cs, false, 3);
}

// many blocks, and blocks with hundreds of rows
MC_SCENARIO(many_blocks, 4)
{
    static const std::vector<V> S = {V(16, 1), V(17, 2), V(33, 1), V{300, 0, 1, 70}, V{0, 0, 0, 0, 257, 0, 0, 0, 0}, V{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, V{513}, V(65, 1)};
    V rs = mc::pick(S), cs = mc::pick(S); int pat = mc::choose(5), kind = mc::pick({1, 2, 4});
    if (!mc::thorough() && rs.size() * cs.size() > 1200) { mc::prune(); }
    V ro = offsets(rs), co = offsets(cs);
    if ((long)ro.back() * co.back() > 140000) { mc::prune(); }
    Model m(ro, co); BlockMatrix<double> B = rs == cs ? BlockMatrix<double>(ro) : BlockMatrix<double>(ro, co);
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { if (pat == 0 || (pat == 1 && i % 7 == j % 7) || (pat == 2 && i != j) || (pat == 3 && (i * 5 + j * 3) % 4 == 0) || (pat == 4 && i == m.nr() - 1 && j == m.nc() - 1)) { setb(B, m, i, j, kind, i + j); } }
    mc::state(m.hash());
    check(B, m, false);
    same_sparse(B.Transpose().Combine(), m.whole().T(), "combined transpose", true);
    BlockMatrix<double> C(B); C = B; check(C, m, false);
    MC_STEP("block matrix of ", rs.size(), "x", cs.size(), " blocks, ", ro.back(), "x", co.back(), " pattern ", pat, " kind ", kind);
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    int k = mc::pick({0, 1}), pat = mc::choose(4), what = mc::choose(4); huge::H a = huge::make(k, 1), b = huge::make(k, 2), c(a.r, 40), d(40, a.c);
    for (int i = 0; i < 40; ++i) { c.e[{i * 977 + 1, (i * 7) % 40}] = i + 1; d.e[{i, a.c - 1 - i * 700}] = -i - 1; }
    V ro{0, a.r, a.r + 40, 2 * a.r + 40}, co{0, 40, a.c + 40, 2 * a.c + 40}; BlockMatrix<double> B(ro, co); huge::H w(ro.back(), co.back());
    auto put = [&](int i, int j, const huge::H& h, int order) { B.SetBlock(i, j, huge::sparse(h, order)); for (auto& x : h.e) { w.e[{ro[i] + x.first.first, co[j] + x.first.second}] = x.second; } };
    if (pat != 1) { put(0, 0, c, 0); put(1, 1, d, 1); } if (pat != 2) { put(0, 1, a, 1); put(2, 2, b, 0); } if (pat == 3) { put(2, 1, b, 1); put(1, 2, d, 0); put(2, 0, c, 0); }
    if (what == 0) { huge::same(B.Combine(), w, "combined matrix"); }
    else if (what == 1) { huge::same(B.Transpose().Combine(), w.T(), "transpose"); }
    else { auto x = iramp(w.c, 1), y = iramp(w.r, 2); const Operator& op = B; if (what == 2) { huge::same_long(op.Mult(vec(x)), w.mul(x), "product"); } else { huge::same_long(op.MultAT(vec(y)), w.T().mul(y), "transposed product"); } }
    mc::state(mc::Hash().u(k).u(pat).u(what).u(511)); MC_STEP(w.r, "x", w.c, " pattern ", pat, " check ", what);
}

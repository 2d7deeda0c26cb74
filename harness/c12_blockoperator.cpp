// C12: block operators against the monolithic matrix; block vectors as windows onto one storage.
#include "lin.hpp"
#include "blockmatrix.hpp"
#include "blockoperator.hpp"
#include "blockvector.hpp"
#include <memory>
using namespace lin;
namespace
{
typedef std::vector<int> V;
V offsets(const V& sizes) { V o(1, 0); for (int s : sizes) { o.push_back(o.back() + s); } return o; }
int magnitude = -1;                                          // of the entries of every block
M content(int r, int c, int seed)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if ((i + 2 * j + seed) % 4) { m.set(i, j, 1 + ((i * 7 + j * 3 + seed * 5) % 23) * (((i + j) & 1) ? -1 : 1)); } }
    if (magnitude >= 0) { return magnified(m, magnitude); }
    return m;
}
// an operator of the user's own: only the two required functions, writes its output entry by entry after reading all input
struct UserOp : Operator
{
    M m;
    explicit UserOp(const M& x) : Operator(x.r, x.c), m(x) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { auto y = m.mul(stdv(in)); for (int i = 0; i < m.r; ++i) { out[i] = y[i]; } }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { auto y = m.T().mul(stdv(in)); for (int i = 0; i < m.c; ++i) { out[i] = y[i]; } }
};
const int KINDS = 8;                                          // 0 is unset
typedef std::vector<std::unique_ptr<Operator>> Pool;
const Operator& make(int kind, const M& m, Pool& p)
{
    switch (kind)
    {
    case 1: p.emplace_back(new SparseMatrix<double>(sparse(m, m.r % 3))); break;
    case 2: p.emplace_back(new DenseMatrix(dense(m))); break;
    case 3: p.emplace_back(new UserOp(m)); break;
    case 4: { auto c = new CooMatrix<double>(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.s(i, j)) { c->Add(i, j, m(i, j) - 1); c->Add(i, j, 1); } p.emplace_back(c); break; }
    case 5: { auto b = new BlockMatrix<double>(V{0, m.r}, V{0, m.c}); b->SetBlock(0, 0, sparse(m)); p.emplace_back(b); break; }
    case 6:
        {
            // nested block operator: rows split in two
            int h = m.r / 2; M a(h, m.c), b(m.r - h, m.c);
            for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (i < h) { a.set(i, j, m(i, j)); } else { b.set(i - h, j, m(i, j)); } }
            auto n = new BlockOperator(V{0, h, m.r}, V{0, m.c});
            const Operator& oa = make(2, a, p); const Operator& ob = make(1, b, p);
            n->SetBlock(0, 0, oa); n->SetBlock(1, 0, ob); p.emplace_back(n); break;
        }
    default: { auto c = new LilMatrix<double>(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.s(i, j)) { c->Add(i, j, m(i, j)); } p.emplace_back(c); }
    }
    return *p.back();
}
struct Model
{
    V ro, co; std::vector<M> b; std::vector<char> set; std::vector<const Operator*> ptr;
    int nr() const { return (int)ro.size() - 1; }
    int nc() const { return (int)co.size() - 1; }
    Model(const V& r, const V& c) : ro(r), co(c), b((r.size() - 1) * (c.size() - 1)), set(b.size(), 0), ptr(b.size(), nullptr) {}
    M whole() const
    {
        M m(ro.back(), co.back());
        for (int i = 0; i < nr(); ++i) for (int j = 0; j < nc(); ++j) if (set[i * nc() + j])
                { const M& x = b[i * nc() + j]; for (int p = 0; p < x.r; ++p) for (int q = 0; q < x.c; ++q) { m.set(ro[i] + p, co[j] + q, x(p, q)); } }
        return m;
    }
};
void apply(const BlockOperator& B, const Model& m, int how, int seed)
{
    M w = m.whole();
    const Operator& op = B;
    auto xs = iramp(w.c, seed), ys = iramp(w.r, seed + 1);
    auto x = vec(xs), y = vec(ys);
    switch (how)
    {
    case 0: { Vector<double> o(w.r, nan()); B.Mult(x, VectorView<double>(o)); same_vec(o, w.mul(xs), "product into a view"); break; }
    case 1: { Vector<double> o(w.c, nan()); B.MultAT(y, VectorView<double>(o)); same_vec(o, w.T().mul(ys), "transposed product into a view"); break; }
    case 2: { same_vec(op.Mult(x), w.mul(xs), "product"); break; }
    case 3: { same_vec(op.MultAT(y), w.T().mul(ys), "transposed product"); break; }
    case 4: { Vector<double> o(w.r + 2, nan()); op.Mult(x, o); same_vec(o, w.mul(xs), "product into a vector of another size"); break; }
    default: { Vector<double> o(1, nan()); op.MultAT(y, o); same_vec(o, w.T().mul(ys), "transposed product into a vector of another size"); break; }
    }
    same_vec(x, xs, "input"); same_vec(y, ys, "input");
    MC_CHECK(B.Rows() == w.r && B.Cols() == w.c && B.GetRowOffsets() == m.ro && B.GetColOffsets() == m.co, "shape or offsets");
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { MC_CHECK(B.GetBlock(i, j) == m.ptr[i * m.nc() + j], "block ", i, ",", j, " is not the operator that was set"); }
}
void setb(BlockOperator& B, Model& m, Pool& p, int i, int j, int kind, int seed)
{
    M x = content(m.ro[i + 1] - m.ro[i], m.co[j + 1] - m.co[j], seed);
    const Operator& o = make(kind, x, p);
    B.SetBlock(i, j, o);
    int k = i * m.nc() + j; m.b[k] = x; m.set[k] = 1; m.ptr[k] = &o;
}
V choose_sizes(int n, const V& al) { V s(n); for (int& x : s) { x = mc::pick(al); } return s; }
void every(const V& rs, const V& cs, int kinds, bool square)
{
    V ro = offsets(rs), co = offsets(cs); Model m(ro, co); Pool p;
    BlockOperator B = square ? BlockOperator(ro) : BlockOperator(ro, co);
    mc::Hash h; h.c(ro).c(co);
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { int k = mc::choose(kinds); h.u(k); if (k) { setb(B, m, p, i, j, kinds == 2 ? 1 + (i + j) % 3 : k, i * 3 + j); } }
    mc::state(h);
    for (int how = 0; how < 6; ++how) { apply(B, m, how, how); }
    BlockOperator C(B); apply(C, m, 0, 7); apply(C, m, 1, 7);
    MC_STEP("block operator ", ro, " x ", co, " = ", m.whole().str());
}
}
MC_SCENARIO(operator_kinds, 8)
{
    V al = mc::thorough() ? V{0, 1, 3} : V{0, 2};
    int nr = 1 + mc::choose(2), nc = 1 + mc::choose(2);
    V rs = choose_sizes(nr, nr * nc == 4 ? al : V{0, 1, 2, 3}), cs = choose_sizes(nc, nr * nc == 4 ? al : V{0, 1, 2, 3});
    every(rs, cs, nr * nc == 4 ? (mc::thorough() ? 6 : 5) : KINDS, rs == cs);
}
MC_SCENARIO(layouts, 8)
{
    int nr = 1 + mc::choose(3), nc = 1 + mc::choose(3);
    if (nr * nc > (mc::thorough() ? 9 : 6)) { mc::prune(); }
    V rs = choose_sizes(nr, {0, 1, 2}), cs = choose_sizes(nc, {0, 1, 2});
    every(rs, cs, 2, false);
}
MC_SCENARIO(three_by_three, 8)
{
    V rs = mc::pick(std::vector<V> {{1, 2, 1}, {2, 0, 1}, {3, 3, 3}}), cs = mc::pick(std::vector<V> {{2, 1, 2}, {0, 3, 1}, {1, 1, 1}});
    every(rs, cs, 2, rs == cs);
}
// every sequence of applications, replacements, copies and moves
MC_SCENARIO(histories, 4)
{
    // A and B: same layout, same size with another layout, another number of blocks, another size
    int lay = mc::choose(2), lb = mc::choose(4), depth = mc::thorough() ? 4 : 3;
    V aro = lay ? V{0, 1, 3} : V{0, 2, 3}, aco = lay ? V{0, 2, 2, 3} : V{0, 1, 3};
    V bro = lb == 0 ? aro : lb == 1 ? (lay ? V{0, 2, 3} : V{0, 1, 3}) : lb == 2 ? V{0, 1, 2, 3} : V{0, 2, 2, 4}, bco = lb == 0 ? aco : lb == 1 ? (lay ? V{0, 0, 1, 3} : V{0, 2, 3}) : lb == 2 ? V{0, 1, 2, 3} : V{0, 1};
    Pool p; Model a(aro, aco), b(bro, bco);
    std::unique_ptr<BlockOperator> A(new BlockOperator(aro, aco)), B(new BlockOperator(bro, bco));
    setb(*A, a, p, 0, 0, 1, 1); setb(*B, b, p, b.nr() - 1, b.nc() - 1, 2, 2);
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(13);
        const V ro = a.ro, co = a.co;
        if (op < 4) { apply(*A, a, op, s + 1); }
        else switch (op)
            {
            case 4: { int i = mc::choose(a.nr()), j = mc::choose(a.nc()), k = 1 + mc::choose(3); setb(*A, a, p, i, j, k, s + k); break; }
            case 5: { int i = mc::choose(b.nr()), j = mc::choose(b.nc()); setb(*B, b, p, i, j, 6, s); break; }
            case 6: B.reset(new BlockOperator(*A)); b = a; break;
            case 7: { std::unique_ptr<BlockOperator> C(new BlockOperator(std::move(*A))); A = std::move(C); break; }
            case 8: swap(*A, *B); std::swap(a, b); break;
            case 9: apply(*B, b, s % 6, s); break;
            case 10: { Pool q; Model o(ro, co); BlockOperator outer(V{0, ro.back()}, V{0, co.back()}); outer.SetBlock(0, 0, *A); M w = a.whole(); Model m(V{0, ro.back()}, V{0, co.back()}); m.b[0] = w; m.set[0] = 1; m.ptr[0] = A.get(); apply(outer, m, s % 4, s); break; }
            case 12: { BlockOperator C(*B); swap(C, *A); apply(C, a, s % 4, s); swap(C, *A); break; }
            case 11: { if (a.ro.back() != b.ro.back() || a.co.back() != b.co.back()) { mc::prune(); } Vector<double> o(ro.back(), nan()); auto xs = iramp(co.back(), 9); auto x = vec(xs); A->Mult(x, VectorView<double>(o)); B->Mult(x, VectorView<double>(o)); same_vec(o, b.whole().mul(xs), "second operator into the output of the first"); break; }
            }
        apply(*A, a, (s + op) % 6, 3); apply(*B, b, (s + 1) % 2, 4);
        mc::state(mc::Hash().u(s).u(op).u(a.whole().hash()).u(b.whole().hash()));
        MC_STEP("op ", op, " A=", a.whole().str(), " B=", b.whole().str());
    }
}
// entries of unusual magnitude and precision
MC_SCENARIO(magnitudes, 6)
{
    V rs = choose_sizes(2, {0, 1, 3}), cs = choose_sizes(2, {1, 2});
    magnitude = mc::choose(NMAG);
    struct Reset { ~Reset() { magnitude = -1; } } reset;
    every(rs, cs, 4, false);
}
namespace
{
template <typename T>
void check_bv(BlockVector<T>& b, const V& off, const std::vector<double>& w, const std::string& what)
{
    MC_CHECK(b.GetOffsets() == off, what, ": offsets ", b.GetOffsets());
    same_vec(b, w, what);
    const BlockVector<T>& cb = b;
    for (size_t k = 0; k + 1 < off.size(); ++k)
    {
        auto v = b.GetBlock(k); const auto cv = cb.GetBlock(k);
        MC_CHECK(v.size() == off[k + 1] - off[k] && cv.size() == v.size(), what, ": block ", k, " has size ", v.size());
        for (int i = 0; i < v.size(); ++i) { MC_CHECK(&v[i] == &b[off[k] + i] && &cv[i] == &cb[off[k] + i], what, ": block ", k, " does not alias entry ", off[k] + i); }
    }
}
template <typename T>
void block_vector(const V& sizes)
{
    V off = offsets(sizes); int n = off.back();
    auto xs = iramp(n, 1);
    { BlockVector<T> b(off); MC_CHECK(b.size() == n, "size"); b = (T)3; check_bv(b, off, std::vector<double>(n, 3), "filled"); }
    { BlockVector<T> b(off, (T)5); check_bv(b, off, std::vector<double>(n, 5), "constructed with a value"); }
    auto x = vec<T>(xs);
    BlockVector<T> b(x, off);
    check_bv(b, off, xs, "constructed from a vector"); if (n) { MC_CHECK(b.begin() != x.begin(), "shares storage with the vector it was made from"); }
    auto w = xs;
    for (size_t k = 0; k + 1 < off.size(); ++k)
    {
        auto v = b.GetBlock(k); int z = off[k + 1] - off[k];
        for (int i = 0; i < z; ++i) { v[i] = (T)(100 * (k + 1) + i); w[off[k] + i] = 100 * (k + 1) + i; }
        check_bv(b, off, w, "after writing a block");
        b.GetBlock(k) = (T)(k + 7); for (int i = 0; i < z; ++i) { w[off[k] + i] = k + 7; }
        if (z) { b[off[k]] = -1; w[off[k]] = -1; MC_CHECK(v[0] == -1, "view does not see the write"); }
        check_bv(b, off, w, "after filling a block");
        for (size_t l = 0; l + 1 < off.size(); ++l) if (l != k && off[l + 1] - off[l] == z) { auto u = b.GetBlock(l); auto v2 = b.GetBlock(k); u = v2; for (int i = 0; i < z; ++i) { w[off[l] + i] = w[off[k] + i]; } check_bv(b, off, w, "after assigning a block to another"); u += v2; for (int i = 0; i < z; ++i) { w[off[l] + i] *= 2; } check_bv(b, off, w, "after adding a block to another"); }
    }
    same_vec(x, xs, "source vector");
    MC_STEP("block vector ", off);
}
}
MC_SCENARIO(block_vectors, 5)
{
    int n = 1 + mc::choose(4); V s = choose_sizes(n, {0, 1, 2, 3});
    bool integer = mc::flag();
    mc::state(mc::Hash().u(integer).c(s));
    if (integer) { block_vector<int>(s); } else { block_vector<double>(s); }
}
MC_SCENARIO(block_vector_histories, 4)
{
    int depth = mc::thorough() ? 4 : 3;
    std::vector<V> off = {{0, 2, 3}, {0, 0, 3}, {0, 1, 1, 4}};
    std::vector<std::vector<double>> w = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9, 10}};
    std::vector<BlockVector<double>> v; for (int k = 0; k < 3; ++k) { v.emplace_back(vec(w[k]), off[k]); }
    double tag = 100;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(9), i = mc::choose(3), j = (op == 0 || op == 2 || op == 4 || op == 5) ? mc::choose(3) : 0; tag += 10;
        if (off[i].size() <= 1 && op != 0 && op != 2 && op != 3) { mc::prune(); }
        switch (op)
        {
        case 0: v[i] = v[j]; off[i] = off[j]; w[i] = w[j]; break;
        case 1: { int k = mc::choose((int)off[i].size() - 1); v[i].GetBlock(k) = tag; for (int q = off[i][k]; q < off[i][k + 1]; ++q) { w[i][q] = tag; } break; }
        case 2: swap(v[i], v[j]); std::swap(off[i], off[j]); std::swap(w[i], w[j]); break;
        case 3: { BlockVector<double> t(std::move(v[i])); v[i] = std::move(t); break; }
        case 4: { if (i == j) { mc::prune(); } BlockVector<double> t(v[j]); t += 1.0; v[i] = std::move(t); off[i] = off[j]; w[i] = w[j]; for (double& x : w[i]) { x += 1; } break; }
        case 5: { if (w[i].size() != w[j].size()) { mc::prune(); } const VectorView<double>& x = v[j]; v[i] = x; w[i] = w[j]; break; }
        case 6: v[i] = tag; for (double& x : w[i]) { x = tag; } break;
        case 7: { int q = mc::choose((int)w[i].size()); v[i][q] = tag; w[i][q] = tag; break; }
        case 8: { BlockVector<double> t(v[i]); t.GetBlock(0) = -1; t[t.size() - 1] = -2; break; }
        }
        mc::Hash h; for (int k = 0; k < 3; ++k) { check_bv(v[k], off[k], w[k], mc::S("v", k)); h.c(off[k]).c(w[k]); }
        mc::state(h);
        MC_STEP("op ", op, " on v", i, ",v", j);
    }
}
// many blocks, and blocks with hundreds of rows
MC_SCENARIO(many_blocks, 4)
{
    static const std::vector<V> S = {V(16, 1), V(17, 2), V(33, 1), V{300, 0, 1, 70}, V{0, 0, 0, 0, 257, 0, 0, 0, 0}, V{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, V{513}, V(65, 1)};
    V rs = mc::pick(S), cs = mc::pick(S); int pat = mc::choose(5);
    V ro = offsets(rs), co = offsets(cs);
    if ((long)ro.back() * co.back() > 140000) { mc::prune(); }
    Model m(ro, co); Pool p; BlockOperator B = rs == cs ? BlockOperator(ro) : BlockOperator(ro, co);
    for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { if (pat == 0 || (pat == 1 && i % 7 == j % 7) || (pat == 2 && i != j) || (pat == 3 && (i * 5 + j * 3) % 4 == 0) || (pat == 4 && i == m.nr() - 1 && j == m.nc() - 1)) { setb(B, m, p, i, j, 1 + (i + j) % 7, i + j); } }
    mc::state(mc::Hash().c(ro).c(co).u(pat));
    for (int how = 0; how < 6; ++how) { apply(B, m, how, how); }
    BlockOperator C(B); apply(C, m, 0, 7); apply(C, m, 1, 7);
    BlockOperator D(std::move(C)); apply(D, m, 2, 5); apply(D, m, 3, 5);
    MC_STEP("block operator of ", rs.size(), "x", cs.size(), " blocks, ", ro.back(), "x", co.back(), " pattern ", pat);
}
MC_SCENARIO(many_block_vectors, 2)
{
    static const std::vector<V> S = {V(16, 1), V(17, 2), V(70, 1), V{300, 0, 1, 70}, V{0, 0, 0, 0, 257, 0, 0, 0, 0}, V{5000, 3}};
    V s = mc::pick(S); bool integer = mc::flag();
    mc::state(mc::Hash().u(integer).c(s));
    if (integer) { block_vector<int>(s); } else { block_vector<double>(s); }
}
// the same operator in several places at once
MC_SCENARIO(shared_operators, 6)
{
    int n = 1 + mc::choose(2), kx = mc::pick({1, 2, 3}), ky = mc::pick({3, 6}), nr = 1 + mc::choose(3), nc = 1 + mc::choose(3); if (nr * nc > (mc::thorough() ? 9 : 6)) { mc::prune(); }
    V ro(1, 0), co(1, 0); for (int i = 0; i < nr; ++i) { ro.push_back(ro.back() + n); } for (int j = 0; j < nc; ++j) { co.push_back(co.back() + n); }
    Model m(ro, co); Pool p; BlockOperator B(ro, co); M x = content(n, n, 1), y = content(n, n, 2); const Operator& ox = make(kx, x, p); const Operator& oy = make(ky, y, p); mc::Hash h; h.u(n).u(kx).u(ky);
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) { int k = mc::choose(3); h.u(k); if (k) { B.SetBlock(i, j, k == 1 ? ox : oy); int q = i * nc + j; m.b[q] = k == 1 ? x : y; m.set[q] = 1; m.ptr[q] = k == 1 ? &ox : &oy; } }
    mc::state(h); for (int how = 0; how < 6; ++how) { apply(B, m, how, how + 1); } MC_STEP("shared operators ", nr, "x", nc, " = ", m.whole().str());
}

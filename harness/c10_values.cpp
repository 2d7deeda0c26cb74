// C10: copies are independent, moves and swaps preserve values, views alias.  A pool of three objects of every
// container type is driven through every sequence of life-cycle operations next to a pool of plain tables.
#include "lin.hpp"
#include "blockmatrix.hpp"
#include "blockvector.hpp"
#include <memory>
using namespace lin;
namespace
{
typedef std::vector<int> V;
// ---- adapters: T (the library type), Model, make(k), kinds, mutate(obj, model, kind, tag), check(obj, model), address of storage
template <typename T> struct Vec
{
    typedef Vector<T> Obj; typedef std::vector<double> Model;
    static const int kinds = 5;
    static Model model(int k) { return k == 4 ? iramp(5000) : k == 0 ? Model{} : k == 1 ? Model{1, 2, 3} : k == 2 ? Model{4, 5} : Model{6, 7, 8, 9, 10}; }
    static Obj make(int k) { return vec<T>(model(k)); }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: if (m.empty()) { return false; } o[m.size() - 1] = (T)tag; m.back() = tag; break;
        case 1: o = (T)tag; for (double& x : m) { x = tag; } break;
        case 2: o.SetSize(4, (T)tag); m.resize(4, tag); break;
        case 3: { size_t n = m.size(); o.SetSize((int)n + 1); o[(int)n] = (T)tag; m.push_back(tag); break; }
        default: { T raw[3] = {(T)tag, (T)(tag + 1), (T)(tag + 2)}; VectorView<T> v(raw, 3); const VectorView<T>& cv = v; o = cv; m = {(double)tag, (double)tag + 1, (double)tag + 2}; raw[0] = raw[1] = raw[2] = 0; break; }
        }
        return true;
    }
    static void check(Obj& o, const Model& m, const std::string& w)
    {
        same_vec(o, m, w);
        const Obj& c = o;
        MC_CHECK(o.end() - o.begin() == (long)m.size() && c.begin() == o.begin() && c.end() == o.end(), w, ": begin/end");
        VectorView<T>& base = o; MC_CHECK(base.begin() == o.begin() && base.size() == (int)m.size(), w, ": base view");
    }
    static const void* mem(Obj& o, const Model& m) { return m.empty() ? nullptr : &o[0]; }
    static uint64_t hash(const Model& m) { return mc::Hash().c(m); }
};
template <typename T> struct Sp
{
    typedef SparseMatrix<T> Obj; typedef M Model;
    static const int kinds = 5;
    static Model model(int k) { if (k == 4) { return family(9, 257, 300); } M m(k == 0 ? 0 : k + 1, k == 0 ? 0 : 4 - k); if (k) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if ((i + j) % 2 == 0) { m.set(i, j, k * 10 + i * 3 + j); } } return m; }
    static Obj make(int k) { if (k == 0) { return Obj(); } return sparse<T>(model(k)); }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: o *= 2.0; for (double& x : m.a) { x *= 2; } break;
        case 1: o = (T)tag; for (size_t k = 0; k < m.a.size(); ++k) { if (m.st[k]) { m.a[k] = tag; } } break;
        case 2: { if (!m.nnz()) { return false; } o.GetData().back() = (T)tag; for (size_t k = m.a.size(); k-- > 0;) if (m.st[k]) { m.a[k] = tag; break; } break; }
        case 3: { if (m.r == 0) { return false; } o.EliminateRow(m.r - 1); for (int j = 0; j < m.c; ++j) { m(m.r - 1, j) = 0; } break; }
        default: o = o.Transpose(); m = m.T(); break;
        }
        return true;
    }
    static void check(Obj& o, const Model& m, const std::string& w) { same_sparse(o, m, w, true); auto x = iramp(m.c, 1); Vector<double> xv = vec(x); Vector<double> y(m.r, nan()); o.Mult(xv, VectorView<double>(y)); same_vec(y, m.mul(x), w + " times a vector"); }
    static const void* mem(Obj& o, const Model& m) { return m.nnz() ? o.GetData().data() : nullptr; }
    static uint64_t hash(const Model& m) { return m.hash(); }
};
struct De
{
    typedef DenseMatrix Obj; typedef M Model;
    static const int kinds = 5;
    static Model model(int k) { if (k == 4) { return family(2, 70, 80); } M m(k == 0 ? 0 : k + 1, k == 0 ? 0 : 4 - k); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { m.set(i, j, k * 10 + i * 3 + j); } return m; }
    static Obj make(int k) { if (k == 0) { return Obj(); } return dense(model(k)); }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: if (m.a.empty()) { return false; } o(m.r - 1, 0) = tag; m(m.r - 1, 0) = tag; break;
        case 1: { o.SetSize(2, 3); o = (double)tag; m = M(2, 3); for (double& x : m.a) { x = tag; } break; }
        case 2: o *= 3.0; for (double& x : m.a) { x *= 3; } break;
        case 3: { if (m.c == 0) { return false; } auto v = o.GetColView(m.c - 1); for (int i = 0; i < m.r; ++i) { v[i] = tag + i; m(i, m.c - 1) = tag + i; } break; }
        default: o = o.Transpose(); m = m.T(); break;
        }
        return true;
    }
    static void check(Obj& o, const Model& m, const std::string& w) { same_dense(o, m, w); auto x = iramp(m.c, 1); Vector<double> xv = vec(x); Vector<double> y(m.r, nan()); o.Mult(xv, VectorView<double>(y)); same_vec(y, m.mul(x), w + " times a vector"); }
    static const void* mem(Obj& o, const Model& m) { return m.a.empty() ? nullptr : o.GetData(); }
    static uint64_t hash(const Model& m) { return m.hash(); }
};
struct CM { bool set = false; int r = 0, c = 0; std::vector<std::array<double, 3>> e; };
template <typename O> struct Tri            // coordinate and list matrices
{
    typedef O Obj; typedef CM Model;
    static const int kinds = 4;
    static Model model(int k) { CM m; if (k == 0) { return m; } if (k == 4) { m.set = true; m.r = 90; m.c = 70; for (int i = 0; i < 5000; ++i) { m.e.push_back({(double)(i % 90), (double)(i * 7 % 70), (double)(i % 11 - 4)}); } return m; } m.set = k != 2; m.r = k == 2 ? 0 : k + 1; m.c = k == 2 ? 0 : 5 - k; m.e.push_back({0, 1, 10.0 * k}); m.e.push_back({1, 0, 10.0 * k + 1}); m.e.push_back({0, 1, 2}); return m; }
    static Obj make(int k) { Model m = model(k); Obj o; if (m.set) { o = Obj(m.r, m.c); } for (auto& e : m.e) { o.Add((int)e[0], (int)e[1], e[2]); } return o; }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: if (m.set && (m.r < 2 || m.c < 2)) { return false; } o.Add(1, 1, tag); m.e.push_back({1, 1, (double)tag}); break;
        case 1: if (m.set) { return false; } o.Add(3, 2, tag); m.e.push_back({3, 2, (double)tag}); break;
        case 2: { int r = std::max(5, m.r), c = std::max(6, m.c); o.SetSize(r, c); m.set = true; m.r = r; m.c = c; break; }
        default: { auto s = o.ToSparse(); (void)s; auto d = o.ToDense(); d = 7.0; break; }
        }
        return true;
    }
    static M table(const Model& m) { int r = m.r, c = m.c; if (!m.set) { r = c = 1; for (auto& e : m.e) { r = std::max(r, (int)e[0] + 1); c = std::max(c, (int)e[1] + 1); } } M t(r, c); for (auto& e : m.e) { t((int)e[0], (int)e[1]) += e[2]; } return t; }
    static void check(Obj& o, const Model& m, const std::string& w) { Obj c(o); M t = table(m); same_dense(c.ToDense(), t, w); same_sparse(o.ToSparse(), t, w); }
    static const void* mem(Obj&, const Model&) { return nullptr; }
    static uint64_t hash(const Model& m) { mc::Hash h; h.u(m.set).u(m.r).u(m.c); for (auto& e : m.e) { h.c(std::vector<double>(e.begin(), e.end())); } return h; }
};
struct BMod { V ro{0}, co{0}; std::vector<M> b; int nr() const { return (int)ro.size() - 1; } int nc() const { return (int)co.size() - 1; } };
struct BM
{
    typedef BlockMatrix<double> Obj; typedef BMod Model;
    static const int kinds = 3;
    static M cont(int r, int c, int t) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { m.set(i, j, t + i * 4 + j); } return m; }
    static Model model(int k) { Model m; if (k == 4) { m.ro = m.co = V{0}; for (int i = 0; i < 20; ++i) { m.ro.push_back(m.ro.back() + 1 + i % 3); m.co.push_back(m.co.back() + 2); } m.b.resize(400); m.b[0] = cont(1, 2, 9); return m; } if (k) { m.ro = k == 1 ? V{0, 1, 3} : V{0, 2}; m.co = k == 3 ? V{0, 1} : V{0, 2, 3}; m.b.resize(m.nr() * m.nc()); m.b[0] = cont(m.ro[1], m.co[1], 10 * k); } return m; }
    static Obj make(int k) { if (!k) { return Obj(); } Model m = model(k); Obj o(m.ro, m.co); o.SetBlock(0, 0, sparse(m.b[0])); return o; }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: case 1: { if (m.b.empty()) { return false; } int i = kind ? m.nr() - 1 : 0, j = kind ? m.nc() - 1 : 0; M x = cont(m.ro[i + 1] - m.ro[i], m.co[j + 1] - m.co[j], tag); o.SetBlock(i, j, sparse(x)); m.b[i * m.nc() + j] = x; break; }
        default: { o = o.Transpose(); Model t; t.ro = m.co; t.co = m.ro; t.b.resize(m.b.size()); for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { t.b[j * m.nr() + i] = m.b[i * m.nc() + j].T(); } m = t; break; }
        }
        return true;
    }
    static M table(const Model& m) { M w(m.ro.back(), m.co.back()); for (int i = 0; i < m.nr(); ++i) for (int j = 0; j < m.nc(); ++j) { const M& x = m.b[i * m.nc() + j]; for (int p = 0; p < x.r; ++p) for (int q = 0; q < x.c; ++q) { w.set(m.ro[i] + p, m.co[j] + q, x(p, q)); } } return w; }
    static void check(Obj& o, const Model& m, const std::string& w) { MC_CHECK(o.GetRowOffsets() == m.ro && o.GetColOffsets() == m.co, w, ": offsets"); same_sparse(o.Combine(), table(m), w); }
    static const void* mem(Obj&, const Model&) { return nullptr; }
    static uint64_t hash(const Model& m) { return mc::Hash().c(m.ro).c(m.co).u(table(m).hash()); }
};
struct BVm { V off{0}; std::vector<double> v; };
struct BV
{
    typedef BlockVector<double> Obj; typedef BVm Model;
    static const int kinds = 3;
    static Model model(int k) { Model m; if (k == 4) { for (int i = 0; i < 70; ++i) { m.off.push_back(m.off.back() + i % 4); } m.v = ramp(m.off.back(), 4); return m; } if (k) { m.off = k == 1 ? V{0, 1, 3} : k == 2 ? V{0, 0, 2} : V{0, 2, 3, 3, 5}; m.v = ramp(m.off.back(), k); } return m; }
    static Obj make(int k) { if (!k) { return Obj(); } Model m = model(k); return Obj(vec(m.v), m.off); }
    static bool mutate(Obj& o, Model& m, int kind, int tag)
    {
        switch (kind)
        {
        case 0: if (m.v.empty()) { return false; } o[0] = tag; m.v[0] = tag; break;
        case 1: { if (m.off.size() < 2) { return false; } int b = (int)m.off.size() - 2; o.GetBlock(b) = (double)tag; for (int i = m.off[b]; i < m.off[b + 1]; ++i) { m.v[i] = tag; } break; }
        default: o *= 2.0; for (double& x : m.v) { x *= 2; } break;
        }
        return true;
    }
    static void check(Obj& o, const Model& m, const std::string& w)
    {
        same_vec(o, m.v, w); MC_CHECK(o.GetOffsets() == m.off, w, ": offsets");
        for (size_t b = 0; b + 1 < m.off.size(); ++b) { auto v = o.GetBlock((int)b); MC_CHECK(v.size() == m.off[b + 1] - m.off[b], w, ": size of block ", b); for (int i = 0; i < v.size(); ++i) { MC_CHECK(&v[i] == &o[m.off[b] + i], w, ": block ", b, " is not a window of its own vector"); } }
    }
    static const void* mem(Obj& o, const Model& m) { return m.v.empty() ? nullptr : &o[0]; }
    static uint64_t hash(const Model& m) { return mc::Hash().c(m.off).c(m.v); }
};
template <typename A> typename A::Obj pass(typename A::Obj x) { return x; }
template <typename A> typename A::Obj dup(const typename A::Obj& x) { typename A::Obj y = x; return y; }

template <typename A>
void pool(int n, int depth, bool large = false)
{
    typedef typename A::Obj O; typedef typename A::Model Mo;
    std::unique_ptr<O> o[3]; Mo m[3]; bool ok[3] = {true, true, true};
    int first = mc::thorough() && n == 3 ? mc::choose(2) : 0;                       // pool {1,2,3} or {0,1,2}
    for (int k = 0; k < 3; ++k) { o[k].reset(new O(A::make(k + 1 - first))); m[k] = A::model(k + 1 - first); }
    if (large) { o[0].reset(new O(A::make(4))); m[0] = A::model(4); }
    int tag = 50;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(12 + A::kinds), i = mc::choose(n), j = 0;
        tag += 7;
        const bool needj = op <= 4 || op == 7 || op == 8 || op == 10;
        if (needj) { j = mc::choose(n); if (!ok[j] && op != 4) { mc::prune(); } }
        if (op == 4) { if (j < i) { mc::prune(); } }
        switch (op)
        {
        case 0: *o[i] = *o[j]; m[i] = m[j]; ok[i] = true; break;
        case 1: { if (i == j) { mc::prune(); } o[i].reset(new O(*o[j])); m[i] = m[j]; ok[i] = true; break; }
        case 2: { if (i == j) { mc::prune(); } *o[i] = std::move(*o[j]); m[i] = m[j]; ok[i] = true; ok[j] = false; break; }
        case 3: { std::unique_ptr<O> t(new O(std::move(*o[j]))); o[i] = std::move(t); m[i] = m[j]; if (i != j) { ok[j] = false; } ok[i] = true; break; }
        case 4: swap(*o[i], *o[j]); std::swap(m[i], m[j]); std::swap(ok[i], ok[j]); break;
        case 5: *o[i] = A::make((s + i) % 4); m[i] = A::model((s + i) % 4); ok[i] = true; break;
        case 6: o[i].reset(new O()); m[i] = A::model(0); ok[i] = true; break;
        case 7: *o[i] = dup<A>(*o[j]); m[i] = m[j]; ok[i] = true; break;
        case 8: { Mo w = m[j]; *o[i] = pass<A>(std::move(*o[j])); if (i != j) { ok[j] = false; } m[i] = w; ok[i] = true; break; }
        case 9: { if (!ok[i] || (n == 2 && !large)) { mc::prune(); } std::vector<O> g; Mo w = m[i]; for (int k = 0; k < 5; ++k) { g.push_back(*o[i]); } for (auto& x : g) { A::check(x, w, "in a growing vector"); } Mo w2 = w; bool ch = A::mutate(g[1], w2, 0, 3); g.erase(g.begin()); if (ch) { A::check(g[0], w2, "after erasing from a vector"); } A::check(g[1], w, "after erasing from a vector"); *o[i] = g[3]; break; }
        case 10: { using std::swap; if (i == j) { mc::prune(); } { O t(*o[j]); swap(t, *o[i]); } m[i] = m[j]; ok[i] = true; break; }
        case 11: { if (!ok[i]) { mc::prune(); } O t(*o[i]); Mo w = m[i]; if (A::mutate(t, w, A::kinds - 1, tag)) { A::check(t, w, "a changed copy"); } break; }
        default: if (!ok[i] || !A::mutate(*o[i], m[i], op - 12, tag)) { mc::prune(); }
        }
        mc::Hash h;
        for (int k = 0; k < 3; ++k) { h.u(ok[k]); if (ok[k]) { A::check(*o[k], m[k], mc::S("object ", k, " after operation ", op, " on ", i, ",", j)); h.u(A::hash(m[k])); } }
        for (int a = 0; a < 3; ++a) for (int b = a + 1; b < 3; ++b) if (ok[a] && ok[b]) { const void* p = A::mem(*o[a], m[a]); MC_CHECK(!p || p != A::mem(*o[b], m[b]), "objects ", a, " and ", b, " share storage"); }
        mc::state(h);
        MC_STEP("op ", op, " on ", i, ",", j);
    }
}
}
#define POOL(n, A) MC_SCENARIO(n, 4) { pool<A>(3, 3); } MC_SCENARIO(n##_large, 2) { pool<A>(2, 2, true); }
#define POOL2(n, A) POOL(n, A) MC_SCENARIO_THOROUGH(n##_pairs, 4) { pool<A>(2, 4); }
POOL2(pool_vector_double, Vec<double>)
POOL(pool_vector_int, Vec<int>)
POOL2(pool_sparse_double, Sp<double>)
POOL(pool_sparse_int, Sp<int>)
POOL2(pool_dense, De)
POOL2(pool_coo, Tri<CooMatrix<double>>)
POOL2(pool_lil, Tri<LilMatrix<double>>)
POOL2(pool_block_matrix, BM)
POOL2(pool_block_vector, BV)

// views over two storages: construction from pointer, std::vector, owning vector, copy, move, swap; assignment copies entries
MC_SCENARIO(views, 4)
{
    int depth = mc::thorough() ? 4 : 3;
    std::vector<double> a = {1, 2, 3, 4}, b = {5, 6, 7, 8};
    Vector<double> c = vec({9, 10, 11});
    struct W { int st, off, n; };
    std::vector<double> m[3] = {a, b, {9, 10, 11}};
    auto base = [&](int st) -> double* { return st == 0 ? a.data() : st == 1 ? b.data() : c.begin(); };
    std::unique_ptr<VectorView<double>> v[3]; W w[3] = {{0, 0, 3}, {1, 1, 3}, {2, 0, 3}};
    v[0].reset(new VectorView<double>(a.data(), 3)); v[1].reset(new VectorView<double>(b.data() + 1, 3)); v[2].reset(new VectorView<double>(c));
    double tag = 100;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(11), i = mc::choose(3), j = op <= 5 ? mc::choose(3) : 0; tag += 3;
        auto put = [&](int k, int q, double x) { m[w[k].st][w[k].off + q] = x; };
        auto get = [&](int k, int q) { return m[w[k].st][w[k].off + q]; };
        switch (op)
        {
        case 0: case 1: case 2:
            {
                if (w[i].n != w[j].n || (w[i].st == w[j].st && w[i].off > w[j].off)) { mc::prune(); }
                if (op == 0) { *v[i] = *v[j]; } else if (op == 1) { const VectorView<double>& x = *v[j]; *v[i] = x; } else { *v[i] = std::move(*v[j]); }
                std::vector<double> t; for (int q = 0; q < w[j].n; ++q) { t.push_back(get(j, q)); } for (int q = 0; q < w[i].n; ++q) { put(i, q, t[q]); }
                break;
            }
        case 3: { std::unique_ptr<VectorView<double>> t(new VectorView<double>(*v[j])); v[i] = std::move(t); w[i] = w[j]; break; }
        case 4: { std::unique_ptr<VectorView<double>> t(new VectorView<double>(std::move(*v[j]))); v[i] = std::move(t); w[i] = w[j]; break; }
        case 5: if (j < i) { mc::prune(); } swap(*v[i], *v[j]); std::swap(w[i], w[j]); break;
        case 6: { int q = mc::choose(w[i].n); (*v[i])[q] = tag; put(i, q, tag); break; }
        case 7: *v[i] = tag; for (int q = 0; q < w[i].n; ++q) { put(i, q, tag); } break;
        case 8: { int q = mc::choose(3); base(i)[q] = tag; m[i][q] = tag; break; }
        case 9: { Vector<double> t(*v[i]); t = -1.0; Vector<double> u(3); const VectorView<double>& x = *v[i]; u = x; u *= 2.0; break; }
        case 10: { int f = mc::choose(2); v[i].reset(f ? new VectorView<double>(a.data() + 1, 2) : new VectorView<double>(a)); w[i] = f ? W{0, 1, 2} : W{0, 0, 4}; break; }
        }
        for (int k = 0; k < 3; ++k)
        {
            for (size_t q = 0; q < m[k].size(); ++q) { MC_CHECK(base(k)[q] == m[k][q], "storage ", k, " entry ", q, " is ", base(k)[q], " expected ", m[k][q]); }
            MC_CHECK(v[k]->size() == w[k].n && v[k]->begin() == base(w[k].st) + w[k].off, "view ", k, " no longer views the storage it was made from");
        }
        mc::Hash h; for (int k = 0; k < 3; ++k) { h.c(m[k]).u(w[k].st).u(w[k].off).u(w[k].n); } mc::state(h);
        MC_STEP("view op ", op, " ", i, ",", j);
    }
}
// objects that have a shape and nothing in them: the shape takes part in every copy, move, swap and assignment
namespace
{
struct Shape { int r, c; };
bool operator==(Shape a, Shape b) { return a.r == b.r && a.c == b.c; }
template <typename O> Shape shape(const O& o) { return Shape{o.Rows(), o.Cols()}; }
template <typename O> Shape converted(const O& o) { auto d = o.ToDense(); auto s = o.ToSparse(); return Shape{d.Rows() == s.Rows() ? d.Rows() : -1, d.Cols() == s.Cols() ? d.Cols() : -1}; }
template <typename T> Shape converted(const SparseMatrix<T>& o) { auto d = o.ToDense(); auto t = o.Transpose(); return Shape{d.Rows() == t.Cols() ? d.Rows() : -1, d.Cols() == t.Rows() ? d.Cols() : -1}; }
template <typename T> Shape converted(const BlockMatrix<T>& o) { auto d = o.Combine(); auto t = o.Transpose(); return Shape{d.Rows() == t.Cols() ? d.Rows() : -1, d.Cols() == t.Rows() ? d.Cols() : -1}; }
Shape converted(const DenseMatrix& o) { auto t = o.Transpose(); return Shape{t.Cols(), t.Rows()}; }
void fixed(...) {}
template <typename T> void fixed(CooMatrix<T>* o) { if (o->Rows() && o->Cols()) { o->Add(0, 0, 1); } }
template <typename T> void fixed(LilMatrix<T>* o) { if (o->Rows() && o->Cols()) { o->Add(0, 0, 1); } }
template <typename O, typename F> void shapes(F make, int tag)
{
    Shape s{mc::pick({0, 1, 4}), mc::pick({0, 1, 5})}, t{mc::pick({0, 3}), mc::pick({0, 2})}; int how = mc::choose(8);
    O a = make(s), b = make(t); Shape wa = s, wb = t;
    switch (how)
    {
    case 0: { O c(a); MC_CHECK(shape(c) == s && converted(c) == s, "copy of ", s.r, "x", s.c, " is ", c.Rows(), "x", c.Cols()); fixed(&c); MC_CHECK(shape(c) == s && shape(a) == s, "shape after an addition to the copy"); break; }
    case 1: { O c(std::move(a)); MC_CHECK(shape(c) == s && converted(c) == s, "moved ", s.r, "x", s.c, " is ", c.Rows(), "x", c.Cols()); fixed(&c); MC_CHECK(shape(c) == s, "shape after an addition"); a = c; break; }
    case 2: b = a; wb = s; break;
    case 3: b = std::move(a); a = b; wb = s; break;
    case 4: swap(a, b); std::swap(wa, wb); break;
    case 5: { O& r = a; a = r; break; }
    case 6: { O c(a); O d(c); c = b; MC_CHECK(shape(d) == s && shape(c) == t, "chain of copies"); break; }
    default: { std::vector<O> v; for (int i = 0; i < 5; ++i) { v.push_back(i % 2 ? a : b); } v.erase(v.begin()); MC_CHECK(shape(v[0]) == s && shape(v[1]) == t, "objects in a growing array"); }
    }
    MC_CHECK(shape(a) == wa && shape(b) == wb && converted(a) == wa && converted(b) == wb, "shapes are ", a.Rows(), "x", a.Cols(), " and ", b.Rows(), "x", b.Cols(), ", expected ", wa.r, "x", wa.c, " and ", wb.r, "x", wb.c);
    mc::state(mc::Hash().u(tag).u(s.r).u(s.c).u(t.r).u(t.c).u(how)); MC_STEP("way ", how, " of a ", s.r, "x", s.c);
}
V upto(int n) { return n == 0 ? V{0} : V{0, n / 2, n}; }
}
MC_SCENARIO(empty_shapes, 4)
{
    switch (mc::choose(8))
    {
    case 0: shapes<SparseMatrix<double>>([](Shape s) { return SparseMatrix<double>(s.r, s.c); }, 0); break;
    case 1: shapes<SparseMatrix<int>>([](Shape s) { return SparseMatrix<int>(s.r, s.c); }, 1); break;
    case 2: shapes<DenseMatrix>([](Shape s) { return DenseMatrix(s.r, s.c); }, 2); break;
    case 3: shapes<CooMatrix<double>>([](Shape s) { return CooMatrix<double>(s.r, s.c); }, 3); break;
    case 4: shapes<LilMatrix<double>>([](Shape s) { return LilMatrix<double>(s.r, s.c); }, 4); break;
    case 5: shapes<CooMatrix<int>>([](Shape s) { CooMatrix<int> c; c.SetSize(s.r, s.c); return c; }, 5); break;
    case 6: shapes<LilMatrix<int>>([](Shape s) { LilMatrix<int> c; c.SetSize(s.r, s.c); return c; }, 6); break;
    default: shapes<BlockMatrix<double>>([](Shape s) { return BlockMatrix<double>(upto(s.r), upto(s.c)); }, 7);
    }
}

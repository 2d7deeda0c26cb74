// C26: in a debug build a call with an index outside the object or with operands of the wrong size is stopped by an
// assertion or exception, before it touches memory outside the objects (the address sanitizer watches, every object has
// storage of exactly its size); a call within bounds runs.
#include "lin.hpp"
#include "partition.hpp"
#include "sparsesolve.hpp"
#include <climits>
#include <memory>
using namespace linalgcpp;
using mc::choose; using mc::pick; using mc::flag; using mc::S;
namespace
{
typedef std::function<void()> F;
typedef std::vector<int> VI;
typedef std::vector<double> VD;
void expect(bool valid, const std::string& what, const F& f)
{
    std::string why; mc::Stop s = mc::guarded(f, &why); mc::Hash h; h.s(what); mc::state(h);
    MC_STEP(what, valid ? " is within bounds" : " is out of bounds", ": ", s == mc::Stop::none ? "ran" : "stopped by " + why);
    if (valid) { MC_CHECK(s == mc::Stop::none, what, " is within bounds but was stopped: ", why); }
    else { MC_CHECK(s != mc::Stop::none, what, " is out of bounds but was not stopped"); }
}
// either answer is fine, but nothing outside the objects may be touched
void either(const std::string& what, const F& f) { mc::Stop s = mc::guarded(f); MC_STEP(what, s == mc::Stop::none ? " ran" : " stopped"); }
struct Settable : VectorView<double> { void SetData(double* d, int n) { VectorView<double>::SetData(d, n); } };
volatile double sink; void use(double x) { sink = x; }
int maxdim() { return mc::thorough() ? 4 : 3; }
int index(int n) { int k = choose(n + 5); return k < n + 3 ? k - 1 : k == n + 3 ? INT_MIN : INT_MAX; }       // -1..n+1 and the extremes
int around(int n) { return choose(n + 3) - 1; }                                                                  // -1..n+1
int sized(int n) { return choose(n + 3); }                                                                       // 0..n+2
bool in(int i, int n) { return i >= 0 && i < n; }
VI indices(int n, int len) { VI v(len); for (int& x : v) { x = around(n); } return v; }
bool all_in(const VI& v, int n) { for (int x : v) { if (!in(x, n)) { return false; } } return true; }
VD vals(int n) { VD v(n); for (int i = 0; i < n; ++i) { v[i] = 1 + i; } v.shrink_to_fit(); return v; }
Vector<double> vec(int n) { return Vector<double>(vals(n)); }
DenseMatrix dn(int r, int c) { return DenseMatrix(r, c, vals(r * c)); }
// every cell stored (full), none, or the diagonal and the last column
SparseMatrix<double> sp(int r, int c, int fill = 0)
{
    lin::M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (fill == 0 || (fill == 2 && (i == j || j == c - 1))) { m.set(i, j, 1 + i * c + j); } }
    return lin::sparse(m);
}
double total(const VectorView<double>& v) { double s = 0; for (int i = 0; i < v.size(); ++i) { s += v[i]; } return s; }
}
// ---- vectors and views
MC_SCENARIO(vector_index, 2)
{
    int n = choose(maxdim() + 2), i = index(n), op = choose(7); VD store = vals(n); Vector<double> v(store); const Vector<double>& cv = v; VectorView<double> w(store); const VectorView<double>& cw = w; Vector<int> vi(std::vector<int>(n, 3)); std::string d = S(" of length ", n, " at ", i);
    switch (op)
    {
    case 0: expect(in(i, n), "reading a vector" + d, [&] { use(cv[i]); }); break;
    case 1: expect(in(i, n), "writing a vector" + d, [&] { v[i] = 7; }); break;
    case 2: expect(in(i, n), "reading a view" + d, [&] { use(cw[i]); }); break;
    case 3: expect(in(i, n), "writing a view" + d, [&] { w[i] = 7; }); break;
    case 4: expect(in(i, n), "writing an integer vector" + d, [&] { vi[i] = 7; }); break;
    case 5: { Settable u; u.SetData(store.data(), n); expect(in(i, n), "writing a view set to storage" + d, [&] { u[i] = 7; }); break; }
    case 6: { if (n == 0) { mc::prune(); } int k = choose(n + 1); VectorView<double> u(store.data(), k); expect(in(i, k), S("writing a view of the first ", k, " entries of a vector", d), [&] { u[i] = 7; }); break; }
    }
}
MC_SCENARIO(vector_sizes, 3)
{
    int n = choose(maxdim() + 2), m = choose(maxdim() + 3), op = choose(25); Vector<double> a = vec(n), b = vec(m); std::string d = S(" on lengths ", n, " and ", m); bool ok = n == m;
    VectorView<double> va(a), vb(b); const VectorView<double>& cb = vb;
    switch (op)
    {
    case 0: expect(ok, "+=" + d, [&] { a += b; }); break;
    case 1: expect(ok, "-=" + d, [&] { a -= b; }); break;
    case 2: expect(ok, "*=" + d, [&] { va *= vb; }); break;
    case 3: expect(ok, "/=" + d, [&] { va /= vb; }); break;
    case 4: expect(ok, "inner product" + d, [&] { use(a.Mult(b)); }); break;
    case 5: expect(ok, "InnerProduct" + d, [&] { use(InnerProduct(va, vb)); }); break;
    case 6: expect(ok, "operator* of vectors" + d, [&] { use(va * vb); }); break;
    case 7: expect(ok, "Add(alpha, x)" + d, [&] { a.Add(2.0, b); }); break;
    case 8: expect(ok, "Sub(alpha, x)" + d, [&] { a.Sub(2.0, b); }); break;
    case 9: expect(ok, "Set(alpha, x)" + d, [&] { a.Set(2.0, b); }); break;
    case 10: expect(ok, "Add(x)" + d, [&] { va.Add(vb); }); break;
    case 11: expect(ok, "Sub(x)" + d, [&] { va.Sub(vb); }); break;
    case 12: expect(ok, "Set(x) of a view" + d, [&] { va.Set(vb); }); break;
    case 13: expect(ok, "assigning a view" + d, [&] { va = vb; }); break;
    case 14: expect(ok, "assigning a constant view" + d, [&] { va = cb; }); break;
    case 15: expect(ok, "assigning a temporary view" + d, [&] { va = VectorView<double>(vb); }); break;
    case 16: expect(ok, "operator+ of vectors" + d, [&] { use((a + b).size()); }); break;
    case 17: expect(ok, "operator- of vectors" + d, [&] { use((a - b).size()); }); break;
    case 18: { int k = choose(maxdim() + 2); Vector<double> c = vec(k); expect(ok && k == n, S("Add(x, y, z)", d, " and ", k), [&] { Add(va, vb, c); }); break; }
    case 19: { int k = choose(maxdim() + 2); Vector<double> c = vec(k); expect(ok && k == n, S("Sub(x, y, z)", d, " and ", k), [&] { Sub(va, vb, c); }); break; }
    case 20: { int k = choose(maxdim() + 2); Vector<double> c = vec(k); expect(ok && k == n, S("Add(a, x, b, y, c, z)", d, " and ", k), [&] { Add<double>(2.0, va, 3.0, vb, 1.0, c); }); break; }
    case 21: if (m) { mc::prune(); } expect(n > 0, S("Max of length ", n), [&] { use(Max(va)); }); expect(n > 0, S("Min of length ", n), [&] { use(Min(va)); }); expect(n > 0, S("AbsMax of length ", n), [&] { use(AbsMax(va)); }); expect(n > 0, S("AbsMin of length ", n), [&] { use(AbsMin(va)); }); break;
    case 22: expect(true, "assigning a vector" + d, [&] { a = b; }); MC_CHECK(a.size() == m, "assignment sizes"); break;
    case 23: { Vector<int> bi(std::vector<int>(m, 2)); expect(ok, "+= of an integer vector" + d, [&] { va += bi; }); break; }
    case 24: expect(true, "comparison" + d, [&] { use(va == vb); }); break;
    }
}
MC_SCENARIO(vector_construct, 2)
{
    int op = choose(9), n = pick({-2, -1, 0, 1, 3, INT_MIN}); std::string d = S(" of size ", n); VD store = vals(3); bool ok = n >= 0;
    switch (op)
    {
    case 0: expect(ok, "a vector" + d, [&] { Vector<double> v(n); use(v.size()); }); break;
    case 1: expect(ok, "a filled vector" + d, [&] { Vector<double> v(n, 2.0); use(v.size()); }); break;
    case 2: expect(ok, "a view" + d, [&] { VectorView<double> v(store.data(), n); use(v.size()); }); break;
    case 3: expect(n == 0, "a view of nothing" + d, [&] { VectorView<double> v(nullptr, n); use(v.size()); }); break;
    case 4: expect(ok, "SetData" + d, [&] { Settable v; v.SetData(store.data(), n); }); break;
    case 5: expect(n == 0, "SetData of nothing" + d, [&] { Settable v; v.SetData(nullptr, n); }); break;
    case 6: { Vector<double> v = vec(2); expect(ok, "SetSize" + d, [&] { v.SetSize(n); }); break; }
    case 7: { Vector<double> v = vec(2); expect(ok, "SetSize with a value" + d, [&] { v.SetSize(n, 3.0); }); break; }
    case 8: expect(ok, "a vector of copied data" + d, [&] { Vector<double> v(store.data(), n); use(v.size()); }); break;
    }
}
MC_SCENARIO(vector_gather, 2)
{
    int n = choose(maxdim() + 1), len = choose(4); VI ix = indices(n, len); Vector<double> v = vec(n); bool ok = all_in(ix, n);
    if (flag()) { expect(ok, S("gather ", ix, " of length ", n), [&] { use(v.GetSubVector(ix).size()); }); }
    else { Vector<double> out = vec(choose(5)); expect(ok, S("gather ", ix, " of length ", n, " into a vector"), [&] { v.GetSubVector(ix, out); }); }
}
// after any two operations that change the size or the storage, the bounds are those of the object as it is now
MC_SCENARIO(vector_bounds_follow, 2)
{
    Vector<double> a = vec(2), b = vec(4); int na = 2, nb = 4;
    for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
    {
        switch (choose(10))
        {
        case 0: a.SetSize(3); na = 3; break;
        case 1: a.SetSize(1, 5.0); na = 1; break;
        case 2: b = a; nb = na; break;
        case 3: std::swap(a, b); std::swap(na, nb); break;
        case 4: { Vector<double> c(std::move(a)); a = std::move(c); break; }
        case 5: a = vec(5); na = 5; break;
        case 6: { VectorView<double> v(b); a = static_cast<const VectorView<double>&>(v); na = nb; break; }
        case 7: a = Vector<double>(); na = 0; break;
        case 8: { Vector<double> c(b); a = c; na = nb; break; }
        case 9: a.SetSize(0); na = 0; break;
        }
    }
    int i = around(6); expect(in(i, na), S("index ", i, " of a vector now of length ", na), [&] { a[i] += 1; }); expect(in(i, nb), S("index ", i, " of the other vector now of length ", nb), [&] { b[i] += 1; });
}
// ---- block vectors
MC_SCENARIO(blockvector, 3)
{
    int nb = choose(4); VI off(1, 0); for (int i = 0; i < nb; ++i) { off.push_back(off.back() + choose(3)); } BlockVector<double> v(off, 2.0); const BlockVector<double>& cv = v; int op = choose(6), b = index(nb);
    std::string d = S(" of offsets ", off);
    switch (op)
    {
    case 0: expect(in(b, nb), S("block ", b, d), [&] { VectorView<double> w = v.GetBlock(b); w = 1.0; }); break;
    case 1: expect(in(b, nb), S("constant block ", b, d), [&] { use(total(cv.GetBlock(b))); }); break;
    case 2: if (!in(b, nb)) { mc::prune(); } { int sz = off[b + 1] - off[b], i = index(sz); expect(in(i, sz), S("entry ", i, " of block ", b, d), [&] { VectorView<double> w = v.GetBlock(b); w[i] = 1; }); } break;
    case 3: if (!in(b, nb)) { mc::prune(); } { int sz = off[b + 1] - off[b], k = sized(sz); Vector<double> x = vec(k); expect(k == sz, S("assigning ", k, " entries to block ", b, d), [&] { VectorView<double> w = v.GetBlock(b); w = x; }); } break;
    case 4: { if (b == INT_MIN || b == INT_MAX) { mc::prune(); } int k = choose(off.back() + 3); Vector<double> x = vec(k); BlockVector<double> u(off); mc::Stop s = mc::guarded([&] { u = BlockVector<double>(x, off); });   // data of another length is stopped at construction or when a block does not exist
              if (s == mc::Stop::none) { expect(in(b, nb) && k >= off[b + 1], S("block ", b, d, " built on ", k, " entries"), [&] { VectorView<double> w = u.GetBlock(b); w = 1.0; }); } else { MC_CHECK(k != off.back(), "block vector", d, " on ", k, " entries was stopped"); } break; }
    case 5: { if (b == INT_MIN || b == INT_MAX) { mc::prune(); } int k = choose(off.back() + 3); BlockVector<double> u(off); mc::Stop s = mc::guarded([&] { u.SetSize(k); });
              if (s == mc::Stop::none) { expect(in(b, nb) && k >= off[b + 1], S("block ", b, d, " resized to ", k, " entries"), [&] { VectorView<double> w = u.GetBlock(b); w = 1.0; }); } else { MC_CHECK(k != off.back(), "SetSize of the same size was stopped"); } break; }
    }
}
// ---- dense matrices
MC_SCENARIO(dense_index, 3)
{
    int r = choose(maxdim() + 1), c = choose(maxdim() + 1), op = choose(11); DenseMatrix A = dn(r, c); const DenseMatrix& C = A; std::string d = S(" of a ", r, "x", c, " matrix");
    if (op < 2) { int i = index(r), j = index(c); bool ok = in(i, r) && in(j, c); if (op) { expect(ok, S("writing (", i, ",", j, ")", d), [&] { A(i, j) = 1; }); } else { expect(ok, S("reading (", i, ",", j, ")", d), [&] { use(C(i, j)); }); } return; }
    bool col = op == 2 || op == 3 || op == 5 || op == 7 || op == 9; int n = col ? c : r, len = col ? r : c, i = index(n);
    switch (op)
    {
    case 2: expect(in(i, n), S("view of column ", i, d), [&] { VectorView<double> v = A.GetColView(i); v = 3.0; }); break;
    case 3: expect(in(i, n), S("constant view of column ", i, d), [&] { use(total(C.GetColView(i))); }); break;
    case 4: expect(in(i, n), S("row ", i, d), [&] { use(A.GetRow(i).size()); }); break;
    case 5: expect(in(i, n), S("column ", i, d), [&] { use(A.GetCol(i).size()); }); break;
    case 6: { int k = sized(len); Vector<double> v = vec(k); expect(in(i, n) && k == len, S("row ", i, d, " into ", k, " entries"), [&] { C.GetRow(i, static_cast<VectorView<double>&>(v)); }); break; }
    case 7: { int k = sized(len); Vector<double> v = vec(k); expect(in(i, n) && k == len, S("column ", i, d, " into ", k, " entries"), [&] { C.GetCol(i, static_cast<VectorView<double>&>(v)); }); break; }
    case 8: { int k = sized(len); Vector<double> v = vec(k); expect(in(i, n) && k == len, S("setting row ", i, d, " to ", k, " entries"), [&] { A.SetRow(i, static_cast<VectorView<double>&>(v)); }); break; }
    case 9: { int k = sized(len); Vector<double> v = vec(k); expect(in(i, n) && k == len, S("setting column ", i, d, " to ", k, " entries"), [&] { A.SetCol(i, static_cast<VectorView<double>&>(v)); }); break; }
    case 10: { if (i == INT_MIN || i == INT_MAX) { mc::prune(); } int k = sized(r); VD x(k, 0.0); x.shrink_to_fit(); if (i != 0) { mc::prune(); } expect(k == r && r == c, S("diagonal", d, " into ", k, " entries"), [&] { A.GetDiag(x); }); expect(r == c, S("diagonal", d), [&] { use(A.GetDiag().size()); }); break; }
    }
}
MC_SCENARIO(dense_ranges, 4)
{
    int r = 1 + choose(3), c = 1 + choose(3), op = choose(12); DenseMatrix A = dn(r, c), out = dn(choose(2) * 2, 2); std::string d = S(" of a ", r, "x", c, " matrix");
    switch (op)
    {
    case 0: { int s = around(r), e = around(r); expect(s >= 0 && e >= s && e <= r, S("rows ", s, "..", e, d), [&] { use(A.GetRow(s, e).Rows()); }); break; }
    case 1: { int s = around(r), e = around(r); expect(s >= 0 && e >= s && e <= r, S("rows ", s, "..", e, d, " into a matrix"), [&] { A.GetRow(s, e, out); }); break; }
    case 2: { int s = around(c), e = around(c); expect(s >= 0 && e >= s && e <= c, S("columns ", s, "..", e, d), [&] { use(A.GetCol(s, e).Cols()); }); break; }
    case 3: { int s = around(c), e = around(c); expect(s >= 0 && e >= s && e <= c, S("columns ", s, "..", e, d, " into a matrix"), [&] { A.GetCol(s, e, out); }); break; }
    case 4: { int s = around(r), t = around(c), e = around(r), f = around(c); expect(s >= 0 && e >= s && e <= r && t >= 0 && f >= t && f <= c, S("block (", s, ",", t, ")..(", e, ",", f, ")", d), [&] { use(A.GetSubMatrix(s, t, e, f).Rows()); }); break; }
    case 5: { int s = around(r), t = around(c), e = around(r), f = around(c); expect(s >= 0 && e >= s && e <= r && t >= 0 && f >= t && f <= c, S("block (", s, ",", t, ")..(", e, ",", f, ")", d, " into a matrix"), [&] { A.GetSubMatrix(s, t, e, f, out); }); break; }
    case 6: { int s = around(r), k = sized(r), w = sized(c); DenseMatrix B = dn(k, w); bool in_rows = s >= 0 && s + k <= r; if (w > c && in_rows) { either(S("setting rows from a wider matrix", d), [&] { A.SetRow(s, B); }); } else { expect(in_rows && (w == c || k == 0), S("setting ", k, "x", w, " rows from ", s, d), [&] { A.SetRow(s, B); }); } break; }
    case 7: { int s = around(c), k = sized(r), w = sized(c); DenseMatrix B = dn(k, w); bool in_cols = s >= 0 && s + w <= c; if (k > r && in_cols) { either(S("setting columns from a taller matrix", d), [&] { A.SetCol(s, B); }); } else { expect(in_cols && (k == r || w == 0), S("setting ", k, "x", w, " columns from ", s, d), [&] { A.SetCol(s, B); }); } break; }
    case 8: { int s = around(r), t = around(c), k = sized(r), w = sized(c); DenseMatrix B = dn(k, w); expect(s >= 0 && t >= 0 && s + k <= r && t + w <= c, S("setting a ", k, "x", w, " block at (", s, ",", t, ")", d), [&] { A.SetSubMatrix(s, t, B); }); break; }
    case 9: { int s = around(r), t = around(c), k = sized(r), w = sized(c); DenseMatrix B = dn(k, w); expect(s >= 0 && t >= 0 && s + w <= r && t + k <= c, S("setting a transposed ", k, "x", w, " block at (", s, ",", t, ")", d), [&] { A.SetSubMatrixTranspose(s, t, B); }); break; }
    case 10: case 11: { int s = around(r), t = around(c), e = around(r), f = around(c); DenseMatrix B = dn(1 + choose(2), 1 + choose(2)); bool tr = op == 11; int k = tr ? B.Cols() : B.Rows(), w = tr ? B.Rows() : B.Cols(); bool range = s >= 0 && e >= s && e <= r && t >= 0 && f >= t && f <= c; F g = [&] { if (tr) { A.SetSubMatrixTranspose(s, t, e, f, B); } else { A.SetSubMatrix(s, t, e, f, B); } };
        std::string what = S("setting block (", s, ",", t, ")..(", e, ",", f, ")", d, tr ? " transposed" : "", " from ", B.Rows(), "x", B.Cols());
        if (range && (e == s || f == t)) { if (e - s <= k && f - t <= w) { expect(true, what, g); } else { either(what, g); } }
        else if (range && e - s <= k && f - t <= w && (e - s < k || f - t < w)) { either(what, g); }              // a larger source
        else { expect(range && e - s == k && f - t == w, what, g); } break; }
    }
}
MC_SCENARIO(dense_lists, 4)
{
    int r = 1 + choose(2), c = 1 + choose(2), op = choose(5); DenseMatrix A = dn(r, c); std::string d = S(" of a ", r, "x", c, " matrix");
    VI rows = indices(r, choose(3)); VI cols; if (op < 3) { cols = indices(c, choose(3)); }
    bool ok = all_in(rows, r) && all_in(cols, c), empty = rows.empty() || cols.empty();
    switch (op)
    {
    case 0: { F g = [&] { use(A.GetSubMatrix(rows, cols).Rows()); }; std::string w = S("rows ", rows, " columns ", cols, d); if (!ok && empty) { either(w, g); } else { expect(ok, w, g); } break; }
    case 1: { DenseMatrix out = dn(1, 1); F g = [&] { A.GetSubMatrix(rows, cols, out); }; std::string w = S("rows ", rows, " columns ", cols, d, " into a matrix"); if (!ok && empty) { either(w, g); } else { expect(ok, w, g); } break; }
    case 2: { int k = choose(4), w = choose(4); DenseMatrix B = dn(k, w); bool fit = k == (int)rows.size() && w == (int)cols.size(); F g = [&] { A.AddSubMatrix(rows, cols, B); }; std::string t = S("adding a ", k, "x", w, " matrix to rows ", rows, " columns ", cols, d); if (fit && !ok && empty) { either(t, g); } else { expect(ok && fit, t, g); } break; }
    case 3: expect(ok, S("rows ", rows, d), [&] { use(A.GetRow(rows).Rows()); }); break;
    case 4: { int k = choose(4), w = choose(4); DenseMatrix out = dn(k, w); expect(ok && k == (int)rows.size() && w == c, S("rows ", rows, d, " into a ", k, "x", w, " matrix"), [&] { A.GetRow(rows, out); }); break; }
    }
}
MC_SCENARIO(dense_sizes, 4)
{
    int r = choose(maxdim() + 1), c = choose(maxdim() + 1), op = choose(18); DenseMatrix A = dn(r, c); std::string d = S(" with a ", r, "x", c, " matrix");
    if (op < 6)
    {
        int p = choose(maxdim() + 1), q = choose(maxdim() + 1); DenseMatrix B = dn(p, q), out; bool into = flag(); d += S(" and ", p, "x", q, into ? " into a matrix" : "");
        switch (op)
        {
        case 0: expect(c == p, "Mult" + d, [&] { if (into) { A.Mult(B, out); } else { use(A.Mult(B).Rows()); } }); break;
        case 1: expect(r == p, "MultAT" + d, [&] { if (into) { A.MultAT(B, out); } else { use(A.MultAT(B).Rows()); } }); break;
        case 2: expect(c == q, "MultBT" + d, [&] { if (into) { A.MultBT(B, out); } else { use(A.MultBT(B).Rows()); } }); break;
        case 3: expect(r == q, "MultABT" + d, [&] { if (into) { A.MultABT(B, out); } else { use(A.MultABT(B).Rows()); } }); break;
        case 4: expect(r == p && c == q, "+=" + d, [&] { if (into) { A += B; } else { use((A + B).Rows()); } }); break;
        case 5: expect(r == p && c == q, "-=" + d, [&] { if (into) { A -= B; } else { use((A - B).Rows()); } }); break;
        }
        return;
    }
    if (op < 14)
    {
        int k = choose(maxdim() + 2); Vector<double> x = vec(k); VD sx = vals(k); bool std_vec = op < 12 && op >= 8 && flag(); std::string e = S(d, " and ", k, " entries");
        switch (op)
        {
        case 6: { int m = choose(maxdim() + 2); Vector<double> y = vec(m); expect(k == c && m == r, S("Mult", e, " into ", m), [&] { A.Mult(x, static_cast<VectorView<double>&>(y)); }); break; }
        case 7: { int m = choose(maxdim() + 2); Vector<double> y = vec(m); expect(k == r && m == c, S("MultAT", e, " into ", m), [&] { A.MultAT(x, static_cast<VectorView<double>&>(y)); }); break; }
        case 8: expect(k == r, "ScaleRows" + e, [&] { if (std_vec) { A.ScaleRows(sx); } else { A.ScaleRows(x); } }); break;
        case 9: expect(k == c, "ScaleCols" + e, [&] { if (std_vec) { A.ScaleCols(sx); } else { A.ScaleCols(x); } }); break;
        case 10: expect(k == r, "InverseScaleRows" + e, [&] { if (std_vec) { A.InverseScaleRows(sx); } else { A.InverseScaleRows(x); } }); break;
        case 11: expect(k == c, "InverseScaleCols" + e, [&] { if (std_vec) { A.InverseScaleCols(sx); } else { A.InverseScaleCols(x); } }); break;
        case 12: expect(k == c, "returning Mult" + e, [&] { use(A.Mult(x).size()); }); break;
        case 13: expect(k == r, "returning MultAT" + e, [&] { use(A.MultAT(x).size()); }); break;
        }
        return;
    }
    switch (op)
    {
    case 14: { int i = around(r), j = around(c), k = choose(maxdim() * maxdim() + 2); expect(i >= 0 && j >= 0 && k == i * j, S("a ", i, "x", j, " matrix from ", k, " values"), [&] { DenseMatrix B(i, j, vals(k)); use(B.Rows()); }); break; }
    case 15: { int i = around(r), j = around(c), f = choose(3); expect(i >= 0 && j >= 0, S("SetSize(", i, ",", j, ")", d), [&] { if (f == 0) { A.SetSize(i, j); } else if (f == 1) { A.SetSize(i, j, 2.0); } else { DenseMatrix B(i, j); use(B.Rows()); } }); break; }
    case 16: expect(r * c > 0, "Max" + d, [&] { use(A.Max()); }); expect(r * c > 0, "Min" + d, [&] { use(A.Min()); }); expect(true, "QR" + d, [&] { DenseMatrix B(A); B.QR(); }); expect(true, "SVD" + d, [&] { DenseMatrix B(A); B.SVD(); }); break;
    case 17: { if (r != c) { expect(false, "Invert" + d, [&] { A.Invert(); }); DenseMatrix out; expect(false, "Invert into another" + d, [&] { dn(r, c).Invert(out); }); expect(false, "eigenvalues" + d, [&] { EigenSolver s; s.Solve(dn(r, c), 1.0, -1); }); expect(false, "sparse eigenvalues" + d, [&] { EigenSolver s; s.Solve(sp(r, c), 1.0, -1); }); }
               else { DenseMatrix I(r, r); for (int i = 0; i < r; ++i) { I(i, i) = 2; } expect(true, "Invert" + d, [&] { DenseMatrix J(I); J.Invert(); }); } break; }
    }
}
MC_SCENARIO(dense_bounds_follow, 2)
{
    DenseMatrix A = dn(2, 3), B = dn(4, 1); int ar = 2, ac = 3, br = 4, bc = 1;
    for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
    {
        switch (choose(9))
        {
        case 0: A.SetSize(3, 2); ar = 3; ac = 2; break;
        case 1: A.SetSize(1, 4, 2.0); ar = 1; ac = 4; break;
        case 2: B = A; br = ar; bc = ac; break;
        case 3: swap(A, B); std::swap(ar, br); std::swap(ac, bc); break;
        case 4: { DenseMatrix C(std::move(A)); A = std::move(C); break; }
        case 5: A = A.Transpose(); std::swap(ar, ac); break;
        case 6: { DenseMatrix C; A.Transpose(C); B = C; br = ac; bc = ar; break; }
        case 7: A = DenseMatrix(); ar = ac = 0; break;
        case 8: { DenseMatrix C(B); A = C; ar = br; ac = bc; break; }
        }
    }
    int i = around(4), j = around(4); expect(in(i, ar) && in(j, ac), S("(", i, ",", j, ") of a matrix now ", ar, "x", ac), [&] { A(i, j) += 1; }); expect(in(i, br) && in(j, bc), S("(", i, ",", j, ") of the other matrix now ", br, "x", bc), [&] { B(i, j) += 1; });
}
MC_SCENARIO(hstack, 2)
{
    int k = 1 + choose(3); std::vector<DenseMatrix> v; int rows = -1; bool ok = true; std::string d;
    for (int i = 0; i < k; ++i) { int r = choose(3), c = choose(3); if (rows < 0) { rows = r; } ok = ok && r == rows; v.push_back(dn(r, c)); d += S(" ", r, "x", c); }
    expect(ok, "stacking" + d, [&] { use(HStack(v).Rows()); }); expect(ok, "stacking into a matrix" + d, [&] { DenseMatrix o = dn(1, 1); HStack(v, o); });
}
// ---- sparse matrices
MC_SCENARIO(sparse_construct, 4)
{
    int r = choose(3), c = choose(3); int np = choose(r + 3); VI ip(np); for (int& x : ip) { x = choose(4) - (mc::thorough() ? 1 : 0); } int nz = choose(3); VI ix(nz); for (int& x : ix) { x = around(c); } int nd = nz + choose(2) * (choose(2) ? 1 : nz > 0 ? -1 : 0);
    bool ok = np == r + 1 && nd == nz && all_in(ix, c); if (ok) { ok = ip[0] == 0 && ip[r] == nz; for (int i = 0; i < r && ok; ++i) { ok = ip[i] <= ip[i + 1]; } }
    ip.shrink_to_fit(); ix.shrink_to_fit();
    expect(ok, S("a ", r, "x", c, " matrix with row starts ", ip, ", columns ", ix, " and ", nd, " values"), [&] { SparseMatrix<double> A(ip, ix, vals(nd), r, c); for (int i = 0; i < r; ++i) { for (int j = A.GetIndptr()[i]; j < A.GetIndptr()[i + 1]; ++j) { use(A.GetData()[j]); } } });
}
MC_SCENARIO(sparse_dimensions, 1)
{
    int r = pick({-2, -1, 0, 2}), c = pick({-2, -1, 0, 2}), f = choose(2); expect(f ? r >= 0 : r >= 0 && c >= 0, S("an empty ", r, "x", f ? r : c, " matrix"), [&] { if (f) { SparseMatrix<double> A(r); use(A.Rows()); } else { SparseMatrix<double> A(r, c); use(A.Rows()); } });
}
MC_SCENARIO(sparse_index, 3)
{
    int r = choose(maxdim() + 1), c = choose(maxdim() + 1), fill = choose(3), op = choose(9); SparseMatrix<double> A = sp(r, c, fill); const SparseMatrix<double>& C = A; bool col = op == 6; int n = col ? c : r, i = index(n); std::string d = S(" of a ", r, "x", c, " matrix (", fill, ") at ", i);
    switch (op)
    {
    case 0: expect(in(i, n), "row size" + d, [&] { use(A.RowSize(i)); }); break;
    case 1: expect(in(i, n), "row indices" + d, [&] { use(A.GetIndices(i).size()); }); break;
    case 2: expect(in(i, n), "row data" + d, [&] { use(A.GetData(i).size()); }); break;
    case 3: expect(in(i, n), "view of row indices" + d, [&] { VectorView<int> v = A.GetIndicesView(i); for (int k = 0; k < v.size(); ++k) { v[k] = v[k]; } }); break;
    case 4: expect(in(i, n), "constant view of row indices" + d, [&] { use(C.GetIndicesView(i).size()); }); break;
    case 5: expect(in(i, n), "eliminating a row" + d, [&] { A.EliminateRow(i); }); break;
    case 6: if (c == 0 && i >= 0) { either("eliminating a column of a matrix without columns", [&] { A.EliminateCol(i); }); } else { expect(in(i, n), "eliminating a column" + d, [&] { A.EliminateCol(i); }); } break;
    case 7: expect(in(i, r) && in(i, c), "eliminating a row and column" + d, [&] { A.EliminateRowCol(i); }); break;
    case 8: { if (!in(i, n)) { mc::prune(); } int sz = A.RowSize(i), k = index(sz); expect(in(k, sz), S("entry ", k, " of the view of row indices", d), [&] { VectorView<int> v = A.GetIndicesView(i); v[k] = 0; }); break; }
    }
}
MC_SCENARIO(sparse_sizes, 4)
{
    int r = choose(maxdim() + 1), c = choose(maxdim() + 1), fill = choose(3), op = choose(22); SparseMatrix<double> A = sp(r, c, fill); std::string d = S(" with a ", r, "x", c, " matrix (", fill, ")");
    if (op < 5)
    {
        int p = choose(maxdim() + 1), q = choose(3); DenseMatrix B = dn(p, q), out; bool into = flag(); d += S(" and ", p, "x", q, into ? " into a matrix" : "");
        switch (op)
        {
        case 0: expect(c == p, "Mult" + d, [&] { if (into) { A.Mult(B, out); } else { use(A.Mult(B).Rows()); } }); break;
        case 1: expect(r == p, "MultAT" + d, [&] { if (into) { A.MultAT(B, out); } else { use(A.MultAT(B).Rows()); } }); break;
        case 2: expect(c == p, "MultCT" + d, [&] { if (into) { A.MultCT(B, out); } else { use(A.MultCT(B).Rows()); } }); break;
        case 3: { VI marker(choose(3) * 2, 7); SparseMatrix<double> T = sp(p, q, flag() ? 2 : 0); expect(c == p, "sparse product" + d, [&] { if (into) { use(A.Mult(T, marker).Rows()); } else { use(A.Mult(T).Rows()); } }); break; }
        case 4: if (into) { mc::prune(); } { Vector<double> x = vec(p); expect(c == p, "returning product" + d, [&] { use(A.Mult(x).size()); }); expect(r == p, "returning transposed product" + d, [&] { use(A.MultAT(x).size()); }); } break;
        }
        return;
    }
    int k = choose(maxdim() + 2); VD x = vals(k); Vector<double> v = vec(k); std::string e = S(d, " and ", k, " entries"); const Operator& O = A;
    switch (op)
    {
    case 5: { int m = choose(maxdim() + 2); Vector<double> y = vec(m); expect(k == c && m == r, S("Mult", e, " into ", m), [&] { A.Mult(v, static_cast<VectorView<double>&>(y)); }); break; }
    case 6: { int m = choose(maxdim() + 2); Vector<double> y = vec(m); expect(k == r && m == c, S("MultAT", e, " into ", m), [&] { A.MultAT(v, static_cast<VectorView<double>&>(y)); }); break; }
    case 7: expect(k == r, "ScaleRows" + e, [&] { A.ScaleRows(x); }); break;
    case 8: expect(k == c, "ScaleCols" + e, [&] { A.ScaleCols(x); }); break;
    case 9: expect(k == r, "InverseScaleRows" + e, [&] { A.InverseScaleRows(x); }); break;
    case 10: expect(k == c, "InverseScaleCols" + e, [&] { A.InverseScaleCols(x); }); break;
    case 11: { SparseMatrix<double> D(x); expect(k == r, "ScaleRows by a matrix" + e, [&] { A.ScaleRows(D); }); break; }
    case 12: { SparseMatrix<double> D(x); expect(k == c, "ScaleCols by a matrix" + e, [&] { A.ScaleCols(D); }); break; }
    case 13: { SparseMatrix<double> D(x); expect(k == r, "InverseScaleRows by a matrix" + e, [&] { A.InverseScaleRows(D); }); break; }
    case 14: { SparseMatrix<double> D(x); expect(k == c, "InverseScaleCols by a matrix" + e, [&] { A.InverseScaleCols(D); }); break; }
    case 15: expect(r == c && k == r, "AddDiag" + e, [&] { A.AddDiag(x); }); break;
    case 16: if (k) { mc::prune(); } expect(r == c, "AddDiag of a value" + d, [&] { A.AddDiag(2.0); }); expect(r == c, "GetDiag" + d, [&] { use(A.GetDiag().size()); }); break;
    case 17: { VI m(k, 1); m.shrink_to_fit(); expect(k >= c, "EliminateCol" + e, [&] { A.EliminateCol(m); }); break; }
    case 18: { VI m(k, 1); m.shrink_to_fit(); expect(k >= c && r == c, "EliminateRowCol" + e, [&] { A.EliminateRowCol(m); }); break; }
    case 19: { int p = choose(maxdim() + 2), q = choose(maxdim() + 2); Vector<double> y = vec(p), b = vec(q); VI m(k, 1); m.shrink_to_fit(); expect(k >= c && p == c && q == r, S("EliminateCol", e, ", solution ", p, ", right-hand side ", q), [&] { A.EliminateCol(m, y, static_cast<VectorView<double>&>(b)); }); break; }
    case 20: expect(k == c, "inner product" + e, [&] { Vector<double> y = vec(r); use(O.InnerProduct(v, y)); }); if (k != r) { expect(false, "inner product, other side" + e, [&] { Vector<double> y = vec(c); use(O.InnerProduct(y, v)); }); } break;
    case 21: { VI p(k); for (int& i : p) { i = around(c); } bool ok = k == c && all_in(p, c); F g = [&] { A.PermuteCols(p); }; bool touched = fill == 0 ? r > 0 : false; if (k == c && !ok && !touched) { either(S("PermuteCols ", p, d), g); } else { expect(ok, S("PermuteCols ", p, d), g); } break; }
    }
}
MC_SCENARIO(sparse_submatrix, 4)
{
    int r = 1 + choose(2), c = 1 + choose(2), fill = choose(3); SparseMatrix<double> A = sp(r, c, fill); VI rows = indices(r, choose(3)), cols = indices(c, choose(3)); std::string d = S("rows ", rows, " columns ", cols, " of a ", r, "x", c, " matrix (", fill, ")"); bool ok = all_in(rows, r) && all_in(cols, c);
    if (flag()) { expect(ok, d, [&] { use(A.GetSubMatrix(rows, cols).Rows()); }); }
    else { int k = choose(c + 2); VI marker(k, -1); marker.shrink_to_fit(); expect(ok && k >= c, S(d, " with a workspace of ", k), [&] { use(A.GetSubMatrix(rows, cols, marker).Rows()); }); }
}
// ---- coordinate and list matrices
template <typename Mat> void growable(const char* name, bool coo)
{
    bool declared = flag(); int r = 1 + choose(2), c = 1 + choose(2), op = choose(7); Mat A; if (declared) { A.SetSize(r, c); } std::string d = S(declared ? " in a declared " : " in an undeclared ", r, "x", c, " ", name);
    auto fits = [&](int i, int n) { return i >= 0 && (!declared || i < n); };
    switch (op)
    {
    case 0: { int i = around(r), j = around(c); expect(fits(i, r) && fits(j, c), S("adding (", i, ",", j, ")", d), [&] { A.Add(i, j, 2.0); use(A.ToSparse().nnz()); }); break; }
    case 1: { int i = around(r), j = around(c); expect(fits(i, r) && fits(j, c) && fits(i, c) && fits(j, r), S("adding symmetric (", i, ",", j, ")", d), [&] { A.AddSym(i, j, 2.0); use(A.ToSparse().nnz()); }); break; }
    case 2: { VI rows = indices(r, choose(3)), cols = indices(c, choose(3)); int k = choose(3), w = choose(3); DenseMatrix B = dn(k, w); bool sz = k == (int)rows.size() && w == (int)cols.size(), ok = true; for (int i : rows) { ok = ok && fits(i, r); } for (int j : cols) { ok = ok && fits(j, c); } F g = [&] { A.Add(rows, cols, B); use(A.ToSparse().nnz()); }; std::string t = S("adding a ", k, "x", w, " matrix at ", rows, " ", cols, d); if (sz && !ok && (k == 0 || w == 0)) { either(t, g); } else { expect(sz && ok, t, g); } break; }
    case 3: { int k = choose(4), m = choose(4); A.Add(r - 1, c - 1, 1.0); Vector<double> x = vec(k), y = vec(m); expect(k == c && m == r, S("Mult of ", k, " into ", m, d), [&] { A.Mult(x, static_cast<VectorView<double>&>(y)); }); break; }
    case 4: { int k = choose(4), m = choose(4); A.Add(r - 1, c - 1, 1.0); Vector<double> x = vec(k), y = vec(m); expect(k == r && m == c, S("MultAT of ", k, " into ", m, d), [&] { A.MultAT(x, static_cast<VectorView<double>&>(y)); }); break; }
    case 5: { int p = pick({-2, -1, 0, 2}), q = pick({-1, 0, 2}); if (q < 0 && p >= 0 && !coo) { either(S("SetSize(", p, ",", q, ")", d), [&] { A.SetSize(p, q); }); } else { expect(p >= 0 && q >= 0, S("SetSize(", p, ",", q, ")", d), [&] { A.SetSize(p, q); }); } break; }
    case 6: { int i = choose(3), j = choose(3), p = choose(3), q = choose(3), use_as = choose(4); if (declared) { mc::prune(); } A.Add(i, j, 2.0);                          // a size declared after entries that lie outside it
        F g = [&] { A.SetSize(p, q); Vector<double> x = vec(q), y = vec(p); switch (use_as) { case 0: use(A.ToSparse().nnz()); break; case 1: use(A.ToDense().Rows()); break; case 2: A.Mult(x, static_cast<VectorView<double>&>(y)); break; default: A.MultAT(y, static_cast<VectorView<double>&>(x)); break; } }; std::string t = S("declaring ", p, "x", q, " after adding (", i, ",", j, ")", d, " then use ", use_as);
        if (i < p && j < q) { expect(true, t, g); } else if (coo || i < p) { expect(false, t, g); } else { either(t, g); } break; }
    }
}
MC_SCENARIO(coo, 4) { growable<CooMatrix<double>>("CooMatrix", true); }
MC_SCENARIO(lil, 4) { growable<LilMatrix<double>>("LilMatrix", false); }
MC_SCENARIO(coo_lists, 3)
{
    int r = 2, c = 3, op = choose(9); CooMatrix<double> A(r, c); std::string d = " in a declared 2x3 CooMatrix"; VI a = indices(op == 3 || op == 5 ? c : r, choose(3)); int k = choose(4); Vector<double> v = vec(k); VD sv = vals(k); bool sz = k == (int)a.size();
    F use_it = [&] { use(A.ToSparse().nnz()); };
    switch (op)
    {
    case 0: { int j = around(c); bool ok = sz && all_in(a, r) && (a.empty() || in(j, c)); F g = [&] { A.Add(a, j, static_cast<VectorView<double>&>(v)); use_it(); }; expect(ok, S("column ", j, " rows ", a, ", ", k, " values", d), g); break; }
    case 1: { int j = around(c); bool ok = sz && all_in(a, r) && (a.empty() || in(j, c)); F g = [&] { A.Add(a, j, 2.0, static_cast<VectorView<double>&>(v)); use_it(); }; expect(ok, S("scaled column ", j, " rows ", a, ", ", k, " values", d), g); break; }
    case 2: { VI b = indices(c, choose(3)); bool ok = sz && a.size() == b.size() && all_in(a, r) && all_in(b, c); expect(ok, S("entries ", a, " ", b, ", ", k, " values", d), [&] { A.Add(a, b, sv); use_it(); }); break; }
    case 3: { int i = around(r); bool ok = sz && all_in(a, c) && (a.empty() || in(i, r)); expect(ok, S("row ", i, " columns ", a, ", ", k, " values", d), [&] { A.Add(i, a, static_cast<VectorView<double>&>(v)); use_it(); }); break; }
    case 4: { VI b = indices(c, choose(3)); bool ok = sz && a.size() == b.size() && all_in(a, r) && all_in(b, c); expect(ok, S("scaled entries ", a, " ", b, ", ", k, " values", d), [&] { A.Add(a, b, 2.0, sv); use_it(); }); break; }
    case 5: { int i = around(r); bool ok = sz && all_in(a, c) && (a.empty() || in(i, r)); expect(ok, S("scaled row ", i, " columns ", a, ", ", k, " values", d), [&] { A.Add(i, a, 2.0, static_cast<VectorView<double>&>(v)); use_it(); }); break; }
    case 6: { if (k > 2) { mc::prune(); } int w = choose(3); VI b = indices(c, choose(3)); DenseMatrix B = dn(k, w); bool fit = sz && w == (int)b.size(), ok = all_in(a, r) && all_in(b, c); F g = [&] { A.Add(a, b, 2.0, B); use_it(); }; std::string t = S("scaled ", k, "x", w, " matrix at ", a, " ", b, d); if (fit && !ok && (k == 0 || w == 0)) { either(t, g); } else { expect(fit && ok, t, g); } break; }
    case 7: { if (k > 2) { mc::prune(); } int w = choose(3); DenseMatrix B = dn(k, w); bool fit = sz && w == k; expect(fit && all_in(a, r), S("square ", k, "x", w, " matrix at ", a, d), [&] { A.Add(a, B); use_it(); }); break; }
    case 8: { if (k > 2) { mc::prune(); } int w = choose(3); DenseMatrix B = dn(k, w); bool fit = sz && w == k; expect(fit && all_in(a, r), S("scaled square ", k, "x", w, " matrix at ", a, d), [&] { A.Add(a, 2.0, B); use_it(); }); break; }
    }
}
MC_SCENARIO(coo_permute, 3)
{
    int r = 1 + choose(2), c = 1 + choose(2), op = choose(3); CooMatrix<double> A(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { A.Add(i, j, 1.0); } std::string d = S(" of a ", r, "x", c, " CooMatrix"); VI p, q; bool ok = true;
    if (op != 1) { p = indices(r, choose(r + 2)); ok = ok && (int)p.size() == r && all_in(p, r); } if (op != 0) { q = indices(c, choose(c + 2)); ok = ok && (int)q.size() == c && all_in(q, c); } p.shrink_to_fit(); q.shrink_to_fit();
    expect(ok, S(op == 0 ? "PermuteRows " : op == 1 ? "PermuteCols " : "PermuteRowsCols ", p, q, d), [&] { if (op == 0) { A.PermuteRows(p); } else if (op == 1) { A.PermuteCols(q); } else { A.PermuteRowsCols(p, q); } use(A.ToSparse().nnz()); });
}
MC_SCENARIO(reserve, 1) { int n = pick({-1, 0, 5}); CooMatrix<double> A; expect(n >= 0, S("Reserve(", n, ")"), [&] { A.Reserve(n); }); }
// ---- block matrices and operators
template <typename Mat, typename Set> void blocks(const char* name, const Set& set)
{
    int rb = 1 + choose(2), cb = 1 + choose(2); VI ro(1, 0), co(1, 0); for (int i = 0; i < rb; ++i) { ro.push_back(ro.back() + 1 + choose(2)); } for (int i = 0; i < cb; ++i) { co.push_back(co.back() + 1 + choose(2)); }
    Mat A(ro, co); std::string d = S(" of a ", name, " ", ro, " by ", co); int op = choose(4);
    if (op < 2)
    {
        int i = index(rb), j = index(cb); if (op == 0) { expect(in(i, rb) && in(j, cb), S("getting block (", i, ",", j, ")", d), [&] { auto&& b = A.GetBlock(i, j); (void)b; }); return; }
        int p = in(i, rb) ? ro[i + 1] - ro[i] + choose(3) - 1 : 1, q = in(j, cb) ? co[j + 1] - co[j] + choose(3) - 1 : 1; SparseMatrix<double> B = sp(p, q);
        expect(in(i, rb) && in(j, cb) && p == ro[i + 1] - ro[i] && q == co[j + 1] - co[j], S("setting block (", i, ",", j, ") to ", p, "x", q, d), [&] { set(A, i, j, B); Vector<double> x = vec(co.back()), y = vec(ro.back()); A.Mult(x, static_cast<VectorView<double>&>(y)); }); return;
    }
    SparseMatrix<double> B = sp(ro[1], co[1]); if (flag()) { set(A, 0, 0, B); } int k = choose(6), m = choose(6); Vector<double> x = vec(k), y = vec(m);
    if (op == 2) { expect(k == co.back() && m == ro.back(), S("Mult of ", k, " into ", m, d), [&] { A.Mult(x, static_cast<VectorView<double>&>(y)); }); } else { expect(k == ro.back() && m == co.back(), S("MultAT of ", k, " into ", m, d), [&] { A.MultAT(x, static_cast<VectorView<double>&>(y)); }); }
}
MC_SCENARIO(blockmatrix, 4) { blocks<BlockMatrix<double>>("BlockMatrix", [](BlockMatrix<double>& A, int i, int j, const SparseMatrix<double>& B) { A.SetBlock(i, j, B); }); }
MC_SCENARIO(blockoperator, 4) { blocks<BlockOperator>("BlockOperator", [](BlockOperator& A, int i, int j, const SparseMatrix<double>& B) { A.SetBlock(i, j, B); }); }
// ---- solvers, timers, modules
MC_SCENARIO(solvers, 3)
{
    int kind = choose(3), op = choose(4), r = 1 + choose(3), c = 1 + choose(3); SparseMatrix<double> A(r, c); { lin::M m(r, c); for (int i = 0; i < r && i < c; ++i) { m.set(i, i, 2); } A = lin::sparse(m); } std::string d = S(kind == 0 ? " of a PCGSolver" : kind == 1 ? " of a MINRESSolver" : " of a PMINRESSolver", " on ", r, "x", c);
    auto make = [&](const SparseMatrix<double>& M, const SparseMatrix<double>& P, bool pre) -> std::unique_ptr<Solver> { if (kind == 0) { return pre ? std::unique_ptr<Solver>(new PCGSolver(M, P, 10, 1e-9, 1e-9)) : std::unique_ptr<Solver>(new PCGSolver(M, 10, 1e-9, 1e-9)); } if (kind == 1) { return std::unique_ptr<Solver>(new MINRESSolver(M, 10, 1e-9, 1e-9)); } return std::unique_ptr<Solver>(new PMINRESSolver(M, P, 10, 1e-9, 1e-9)); };
    SparseMatrix<double> I(std::vector<double>(r, 1.0));
    if (op == 0) { expect(r == c, "construction" + d, [&] { make(A, I, false); }); return; }
    if (op == 1) { if (kind == 1) { mc::prune(); } int p = 1 + choose(4), q = 1 + choose(4); SparseMatrix<double> P(p, q); expect(r == c && p == r && q == r, S("construction", d, " with a ", p, "x", q, " preconditioner"), [&] { make(A, P, true); }); return; }
    if (r != c) { mc::prune(); } std::unique_ptr<Solver> s = make(A, I, false);
    if (op == 2) { int k = choose(5), m = choose(5); Vector<double> b = vec(k), x = vec(m); expect(k == r && m == r, S("a solve with ", k, " and ", m, " entries", d), [&] { s->Mult(b, static_cast<VectorView<double>&>(x)); }); return; }
    int p = 1 + choose(4), q = 1 + choose(4); SparseMatrix<double> B(p, q); expect(p == r && q == r, S("SetOperator ", p, "x", q, d), [&] { s->SetOperator(B); });
}
MC_SCENARIO(unset_solvers, 1)
{
    int kind = choose(3), op = choose(2); std::unique_ptr<Solver> s; if (kind == 0) { s.reset(new PCGSolver()); } else if (kind == 1) { s.reset(new MINRESSolver()); } else { s.reset(new PMINRESSolver()); } SparseMatrix<double> A(std::vector<double>(2, 1.0)); Vector<double> b = vec(2), x = vec(2);
    if (op == 0) { expect(false, S("a solve with a solver without operator, kind ", kind), [&] { s->Mult(b, static_cast<VectorView<double>&>(x)); }); } else { either("SetOperator of a solver without operator", [&] { s->SetOperator(A); s->Mult(b, static_cast<VectorView<double>&>(x)); }); }
}
MC_SCENARIO(free_solvers, 2)
{
    int k = choose(5), m = choose(5), f = choose(4); SparseMatrix<double> A(std::vector<double>{2, 3, 4}), I(std::vector<double>{1, 1, 1}); Vector<double> b = vec(k), x = vec(m); std::string d = S(" on 3x3 with ", k, " and ", m, " entries");
    switch (f)
    {
    case 0: expect(k == 3 && m == 3, "CG" + d, [&] { CG(A, b, static_cast<VectorView<double>&>(x), 10, 1e-9, 1e-9, false); }); break;
    case 1: expect(k == 3 && m == 3, "PCG" + d, [&] { PCG(A, I, b, static_cast<VectorView<double>&>(x), 10, 1e-9, 1e-9, false); }); break;
    case 2: expect(k == 3 && m == 3, "MINRES" + d, [&] { MINRES(A, b, static_cast<VectorView<double>&>(x), 10, 1e-9, 1e-9, false); }); break;
    case 3: expect(k == 3 && m == 3, "PMINRES" + d, [&] { PMINRES(A, I, b, static_cast<VectorView<double>&>(x), 10, 1e-9, 1e-9, false); }); break;
    }
}
MC_SCENARIO(timer_steps, 1)
{
    int n = choose(5); Timer t; for (int i = 0; i < n; ++i) { t.Click(); } int i = index(n); expect(in(i, n - 1), S("step ", i, " of ", n, " clicks"), [&] { use(t[i]); });
}
MC_SCENARIO(direct_solver, 2)
{
    int r = 1 + choose(3), c = 1 + choose(3), op = choose(3); lin::M m(r, c); for (int i = 0; i < r && i < c; ++i) { m.set(i, i, 2); } SparseMatrix<double> A = lin::sparse(m);
    if (op == 0) { expect(r == c, S("factorising ", r, "x", c), [&] { SparseSolver s(A); }); return; }
    if (r != c) { mc::prune(); } SparseSolver s(A); int k = choose(5), l = choose(5); Vector<double> b = vec(k), x = vec(l); std::string d = S(" solving ", r, "x", r, " with ", k, " and ", l, " entries");
    if (op == 1) { expect(k == r && l == r, "direct" + d, [&] { s.Mult(b, static_cast<VectorView<double>&>(x)); }); } else { expect(k == r && l == r, "transposed direct" + d, [&] { s.MultAT(b, static_cast<VectorView<double>&>(x)); }); }
}
MC_SCENARIO(partitioning, 2)
{
    int r = 1 + choose(3), c = 1 + choose(3), op = choose(3);
    if (op == 2) { VI p(choose(4)); for (int& x : p) { x = choose(4) - 1; } bool ok = !p.empty(); for (int x : p) { ok = ok && x >= 0; } expect(ok, S("compacting ", p), [&] { RemoveEmpty(p); }); return; }
    lin::M m(r, c); for (int i = 0; i + 1 < r && i + 1 < c; ++i) { m.set(i, i + 1, 1); m.set(i + 1, i, 1); } SparseMatrix<double> A = lin::sparse(m); int parts = around(r);
    if (op == 0) { expect(r == c && parts > 0 && parts <= r, S(parts, " parts of ", r, "x", c), [&] { use(Partition(A, parts).size()); }); }
    else { if (parts) { mc::prune(); } expect(r == c, S("adjacency of ", r, "x", c), [&] { MakeAdjacencyInfo<double, idx_t>(A); }); }
}
// every call form of every kind of operator
MC_SCENARIO(operators, 4)
{
    int kind = choose(8), r = 1 + choose(3), c = 1 + choose(3), form = choose(6), k = choose(5), m = choose(5); if (kind >= 6) { if (c != 1) { mc::prune(); } c = r; }
    SparseMatrix<double> A = sp(r, c, 0), I(std::vector<double>(r, 2.0)); DenseMatrix D = dn(r, c); CooMatrix<double> C(r, c); C.Add(r - 1, c - 1, 1.0); LilMatrix<double> L(r, c); L.Add(r - 1, c - 1, 1.0); BlockMatrix<double> B(VI{0, r}, VI{0, c}); B.SetBlock(0, 0, A); BlockOperator BO(VI{0, r}, VI{0, c}); BO.SetBlock(0, 0, D); std::unique_ptr<Operator> own; const Operator* o = nullptr;
    switch (kind) { case 0: o = &A; break; case 1: o = &D; break; case 2: o = &C; break; case 3: o = &L; break; case 4: o = &B; break; case 5: o = &BO; break; case 6: own.reset(new PCGSolver(I, 5, 1e-9, 1e-9)); o = own.get(); break; default: own.reset(new SparseSolver(I)); o = own.get(); break; }
    if (kind == 6 && form >= 3) { mc::prune(); } Vector<double> x = vec(k), y = vec(m); std::string d = S(" with operator ", kind, " ", r, "x", c, " of ", k);
    switch (form)
    {
    case 0: expect(k == c && m == r, S("Mult", d, " into a view of ", m), [&] { o->Mult(x, VectorView<double>(y)); }); break;
    case 1: expect(k == c, S("Mult", d, " into a vector of ", m), [&] { o->Mult(x, y); }); break;
    case 2: if (m) { mc::prune(); } expect(k == c, "returning Mult" + d, [&] { use(o->Mult(x).size()); }); break;
    case 3: expect(k == r && m == c, S("MultAT", d, " into a view of ", m), [&] { o->MultAT(x, VectorView<double>(y)); }); break;
    case 4: expect(k == r, S("MultAT", d, " into a vector of ", m), [&] { o->MultAT(x, y); }); break;
    case 5: if (m) { mc::prune(); } expect(k == r, "returning MultAT" + d, [&] { use(o->MultAT(x).size()); }); break;
    }
}
MC_SCENARIO(sparse_bounds_follow, 2)
{
    SparseMatrix<double> A = sp(2, 4), B = sp(3, 1); int ar = 2, ac = 4, br = 3, bc = 1;
    for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
    {
        switch (choose(10))
        {
        case 0: A = A.Transpose(); std::swap(ar, ac); break;
        case 1: B = A; br = ar; bc = ac; break;
        case 2: swap(A, B); std::swap(ar, br); std::swap(ac, bc); break;
        case 3: { SparseMatrix<double> C(std::move(A)); A = std::move(C); break; }
        case 4: A = SparseMatrix<double>(); ar = ac = 0; break;
        case 5: { if (ac != br) { mc::prune(); } A = A.Mult(B); ac = bc; break; }
        case 6: { if (ar < 1 || ac < 1) { mc::prune(); } A = A.GetSubMatrix(VI(3, ar - 1), VI(1, ac - 1)); ar = 3; ac = 1; break; }
        case 7: A.EliminateZeros(1e6); break;
        case 8: { SparseMatrix<double> C(B); A = C; ar = br; ac = bc; break; }
        case 9: { if (ar > 4 || ac > 5) { mc::prune(); } CooMatrix<double> C(4, 5); for (int i = 0; i < ar; ++i) { C.Add(i, ac - 1, 2.0); } A = C.ToSparse(); ar = 4; ac = 5; break; }
        }
    }
    int i = around(4); expect(in(i, ar), S("row ", i, " of a matrix now ", ar, "x", ac), [&] { use(A.GetIndices(i).size()); }); expect(in(i, br), S("row ", i, " of the other matrix now ", br, "x", bc), [&] { use(B.RowSize(i)); });
    Vector<double> x = vec(choose(6)), y = vec(ar); expect(x.size() == ac, S("Mult of ", x.size(), " by a matrix now ", ar, "x", ac), [&] { A.Mult(x, static_cast<VectorView<double>&>(y)); });
}
MC_SCENARIO(block_bounds_follow, 2)
{
    typedef BlockMatrix<double> BM; BM A(VI{0, 1, 3}, VI{0, 2}), B(VI{0, 2}); BlockVector<double> v(VI{0, 1, 3}, 1.0), w(VI{0, 2}, 1.0); VI ar{0, 1, 3}, ac{0, 2}, br{0, 2}, bc{0, 2}, vo{0, 1, 3}, wo{0, 2};
    for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
    {
        switch (choose(6))
        {
        case 0: A = A.Transpose(); std::swap(ar, ac); break;
        case 1: B = A; br = ar; bc = ac; w = v; wo = vo; break;
        case 2: swap(A, B); std::swap(ar, br); std::swap(ac, bc); swap(v, w); std::swap(vo, wo); break;
        case 3: { BM C(std::move(A)); A = std::move(C); BlockVector<double> u(std::move(v)); v = std::move(u); break; }
        case 4: A = BM(VI{0, 1, 2, 4}, VI{0, 1}); ar = {0, 1, 2, 4}; ac = {0, 1}; v = BlockVector<double>(VI{0, 1, 2, 4}); vo = {0, 1, 2, 4}; break;
        case 5: A = BM(); ar = ac = {0}; v = BlockVector<double>(); vo = {0}; break;
        }
    }
    int i = around(3), j = around(3); expect(in(i, (int)ar.size() - 1) && in(j, (int)ac.size() - 1), S("block (", i, ",", j, ") of ", ar, " by ", ac), [&] { use(A.GetBlock(i, j).Rows()); }); expect(in(i, (int)vo.size() - 1), S("block ", i, " of ", vo), [&] { use(total(v.GetBlock(i))); });
    expect(in(i, (int)br.size() - 1) && in(j, (int)bc.size() - 1), S("block (", i, ",", j, ") of ", br, " by ", bc), [&] { use(B.GetBlock(i, j).Rows()); }); expect(in(j, (int)wo.size() - 1), S("block ", j, " of ", wo), [&] { use(total(w.GetBlock(j))); });
}
MC_SCENARIO(check_functions, 1)
{
    bool value = flag(), named = flag(); expect(value, S("linalgcpp_assert of ", value), [&] { if (named) { linalgcpp_assert(value, "message"); } else { linalgcpp_assert(value); } }); expect(value, S("linalgcpp_verify of ", value), [&] { if (named) { linalgcpp_verify(value, "message"); } else { linalgcpp_verify(value); } });
}

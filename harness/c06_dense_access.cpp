// C06: dense element, row, column, block access; stacking; resizing.
#include "lin.hpp"
using namespace lin;
namespace
{
int zeros = 0;                       // 0: every entry distinct and nonzero; 1, 2: zero entries in two complementary patterns; 3: all zero
M full(int r, int c, int base)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int k = (i + 2 * j + base) % 3; bool z = zeros == 3 || (zeros == 1 && k == 0) || (zeros == 2 && k != 0); m.set(i, j, z ? 0 : base + 10 * i + j); }
    return m;
}
struct Zeros { explicit Zeros(int n) { zeros = mc::choose(n); } ~Zeros() { zeros = 0; } };
DenseMatrix junk(int r, int c) { return DenseMatrix(r, c, std::vector<double>(r * c, nan())); }
std::vector<double> rowof(const M& m, int i) { std::vector<double> v; for (int j = 0; j < m.c; ++j) { v.push_back(m(i, j)); } return v; }
std::vector<double> colof(const M& m, int j) { std::vector<double> v; for (int i = 0; i < m.r; ++i) { v.push_back(m(i, j)); } return v; }
M block(const M& m, int i0, int j0, int i1, int j1) { M o(i1 - i0, j1 - j0); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { o.set(i, j, m(i0 + i, j0 + j)); } return o; }
M pickm(const M& m, const std::vector<int>& R, const std::vector<int>& C) { M o((int)R.size(), (int)C.size()); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { o.set(i, j, m(R[i], C[j])); } return o; }
void put(M& m, int i0, int j0, const M& b) { for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { m(i0 + i, j0 + j) = b(i, j); } }
template <typename F>
void into(const F& f, const M& want, const std::string& what)
{
    for (int p = 0; p < 5; ++p)
    {
        DenseMatrix o = p == 0 ? DenseMatrix() : p == 1 ? junk(want.r, want.c) : p == 2 ? junk(want.r + 1, want.c + 2) : p == 3 ? junk(want.c, want.r) : junk(1, 1);
        f(o);
        same_dense(o, want, mc::S(what, " into an output of previous kind ", p));
    }
}
std::vector<int> choose_list(int n, int maxlen, int minlen = 0)
{ std::vector<int> v; int l = minlen + mc::choose(maxlen - minlen + 1); for (int i = 0; i < l; ++i) { v.push_back(mc::choose(n)); } return v; }
std::vector<int> choose_distinct(int n, int maxlen)
{
    std::vector<int> v; int l = mc::choose(std::min(n, maxlen) + 1);
    for (int i = 0; i < l; ++i) { int k = mc::choose(n - i); std::vector<int> rest; for (int x = 0; x < n; ++x) { if (std::find(v.begin(), v.end(), x) == v.end()) { rest.push_back(x); } } v.push_back(rest[k]); }
    return v;
}
}
MC_SCENARIO(construction, 6)
{
    int r = mc::choose(6), c = mc::choose(6);
    Zeros zz(4);
    M z(r, c);
    same_dense(DenseMatrix(r, c), z, "constructed");
    if (r == c) { same_dense(DenseMatrix(r), z, "constructed square"); DenseMatrix s; s.SetSize(r); MC_CHECK(s.Rows() == r && s.Cols() == r, "SetSize(n)"); DenseMatrix t; t.SetSize(r, 3.5); M w(r, r); for (double& v : w.a) { v = 3.5; } same_dense(t, w, "SetSize(n, value)"); }
    M a = full(r, c, 1);
    std::vector<double> cm; for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { cm.push_back(a(i, j)); }
    DenseMatrix d(r, c, cm);
    same_dense(d, a, "constructed from column-major data");
    for (int n = 0; n < 3; ++n) { std::vector<double> o(n * 7, nan()); d.CopyData(o); same_vec(o, cm, "CopyData"); }
    const DenseMatrix& cd = d;
    for (int k = 0; k < r * c; ++k) { MC_CHECK(cd.GetData()[k] == cm[k] && d.GetData()[k] == cm[k], "GetData()[", k, "]"); }
    M want = a.T();
    same_dense(d.Transpose(), want, "transpose");
    into([&](DenseMatrix & o) { d.Transpose(o); }, want, "transpose");
    same_dense(d, a, "matrix after transpose");
    // resizing: shape as requested, all entries usable; growing from nothing sets the value
    int r2 = mc::choose(5), c2 = mc::choose(5), how = mc::choose(4);
    DenseMatrix e = d;
    if (how == 0) { e.SetSize(r2, c2); }
    else if (how == 1) { e.SetSize(r2, c2, 9.25); if (r * c == 0) { M w(r2, c2); for (double& v : w.a) { v = 9.25; } same_dense(e, w, "SetSize(r, c, value) of an empty matrix"); } if (r == r2 && c == c2) { same_dense(e, a, "SetSize(r, c, value) to the same shape"); } }
    else if (how == 2) { e.SetSize(r2); c2 = r2; }
    else { e.SetSize(r2, -4.0); c2 = r2; }
    if (r == r2 && c == c2) { same_dense(e, a, "SetSize to the same shape"); }
    M w = full(r2, c2, 50);
    for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) { e(i, j) = w(i, j); }
    same_dense(e, w, "resized matrix after writing every entry");
    MC_CHECK(e.Rows() == r2 && e.Cols() == c2, "resized shape");
    same_dense(d, a, "matrix whose copy was resized");
    mc::state(mc::Hash().u(r).u(c).u(r2).u(c2).u(how));
    MC_STEP("construct ", r, "x", c, " resize ", how, " to ", r2, "x", c2);
}
MC_SCENARIO(rows_and_columns, 6)
{
    int N = mc::thorough() ? 6 : 5;
    int r = 1 + mc::choose(N), c = 1 + mc::choose(N), i = mc::choose(r), j = mc::choose(c), what = mc::choose(10);
    Zeros zz(3);
    M m = full(r, c, 1);
    DenseMatrix d = dense(m);
    const DenseMatrix& cd = d;
    mc::state(mc::Hash().u(r).u(c).u(i).u(j).u(what).u(zeros));
    switch (what)
    {
    case 0: MC_CHECK(cd(i, j) == m(i, j), "element read"); d(i, j) = -5; m(i, j) = -5; break;
    case 1: same_vec(cd.GetCol(j), colof(m, j), "GetCol"); same_vec(cd.GetCol<int>(j), colof(m, j), "GetCol as integers"); same_vec(d.GetCol(j), colof(m, j), "GetCol"); break;
    case 2: same_vec(cd.GetRow(i), rowof(m, i), "GetRow"); same_vec(cd.GetRow<int>(i), rowof(m, i), "GetRow as integers"); break;
    case 3:
        {
            Vector<double> v(r, nan()), w(r, nan()); VectorView<double>& vv = v; d.GetCol(j, vv); same_vec(v, colof(m, j), "GetCol into a view");
            VectorView<double>& wv = w; cd.GetCol(j, wv); same_vec(w, colof(m, j), "const GetCol into a view");
            Vector<int> k(r, 99); VectorView<int>& kv = k; cd.GetCol(j, kv); same_vec(k, colof(m, j), "GetCol into an integer view"); break;
        }
    case 4:
        {
            Vector<double> v(c, nan()); VectorView<double>& vv = v; cd.GetRow(i, vv); same_vec(v, rowof(m, i), "GetRow into a view");
            Vector<int> k(c, 99); VectorView<int>& kv = k; cd.GetRow(i, kv); same_vec(k, rowof(m, i), "GetRow into an integer view"); break;
        }
    case 5: { auto v = vec(ramp(r, 3)); d.SetCol<double>(j, v); for (int k = 0; k < r; ++k) { m(k, j) = v[k]; } break; }
    case 6: { auto v = vec(ramp(c, 3)); d.SetRow<double>(i, v); for (int k = 0; k < c; ++k) { m(i, k) = v[k]; } break; }
    case 7: { auto v = vec<int>(iramp(r, 3)); d.SetCol<int>(j, v); for (int k = 0; k < r; ++k) { m(k, j) = v[k]; } auto w = vec<int>(iramp(c, 4)); d.SetRow<int>(i, w); for (int k = 0; k < c; ++k) { m(i, k) = w[k]; } break; }
    case 8:
        {
            auto v = d.GetColView(j); same_vec(v, colof(m, j), "column view"); MC_CHECK(v.begin() == &d(0, j), "column view does not alias the column");
            v[i] = -7; m(i, j) = -7; same_dense(d, m, "matrix after writing through the column view");
            d(r - 1, j) = 123; m(r - 1, j) = 123; MC_CHECK(v[r - 1] == 123, "column view does not see a write to the matrix");
            d.GetColView(j) = 4.0; for (int k = 0; k < r; ++k) { m(k, j) = 4; } break;
        }
    default:
        {
            const auto v = cd.GetColView(j); same_vec(v, colof(m, j), "const column view"); MC_CHECK(v.size() == r, "view size");
            int j2 = c - 1 - j; auto a = d.GetColView(j); auto b = d.GetColView(j2); a = b; for (int k = 0; k < r; ++k) { m(k, j) = m(k, j2); }
        }
    }
    same_dense(d, m, mc::S("matrix after access ", what));
    MC_STEP("access ", what, " (", i, ",", j, ") of ", r, "x", c);
}
MC_SCENARIO(ranges, 6)
{
    int N = mc::thorough() ? 6 : 5;
    int r = mc::choose(N + 1), c = mc::choose(N + 1);
    int i0 = mc::choose(r + 1), i1 = i0 + mc::choose(r - i0 + 1), j0 = mc::choose(c + 1), j1 = j0 + mc::choose(c - j0 + 1);
    Zeros zz(3);
    M m = full(r, c, 1);
    DenseMatrix d = dense(m);
    const DenseMatrix& cd = d;
    mc::state(mc::Hash().u(zeros).u(r).u(c).u(i0).u(i1).u(j0).u(j1));
    M b = block(m, i0, j0, i1, j1), br = block(m, i0, 0, i1, c), bc = block(m, 0, j0, r, j1);
    same_dense(cd.GetSubMatrix(i0, j0, i1, j1), b, "GetSubMatrix");
    into([&](DenseMatrix & o) { cd.GetSubMatrix(i0, j0, i1, j1, o); }, b, "GetSubMatrix");
    same_dense(cd.GetRow(i0, i1), br, "GetRow(start, end)");
    into([&](DenseMatrix & o) { cd.GetRow(i0, i1, o); }, br, "GetRow(start, end)");
    same_dense(cd.GetCol(j0, j1), bc, "GetCol(start, end)");
    into([&](DenseMatrix & o) { cd.GetCol(j0, j1, o); }, bc, "GetCol(start, end)");
    same_dense(d, m, "matrix after reading ranges");
    M nb = full(i1 - i0, j1 - j0, 500), nr = full(i1 - i0, c, 600), nc = full(r, j1 - j0, 700);
    auto put_check = [&](const M & x, int i, int j, const std::function<void(DenseMatrix&, const DenseMatrix&)>& f, const DenseMatrix & in, const std::string & what)
    { DenseMatrix e = dense(m); M w = m; put(w, i, j, x); auto keep = in; f(e, in); same_dense(e, w, what); MC_CHECK(keep == in, what, ": input changed"); };
    put_check(nb, i0, j0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetSubMatrix(i0, j0, x); }, dense(nb), "SetSubMatrix(start, block)");
    put_check(nb, i0, j0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetSubMatrix(i0, j0, i1, j1, x); }, dense(nb), "SetSubMatrix(range, block)");
    put_check(nb, i0, j0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetSubMatrixTranspose(i0, j0, x); }, dense(nb.T()), "SetSubMatrixTranspose(start, block)");
    put_check(nb, i0, j0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetSubMatrixTranspose(i0, j0, i1, j1, x); }, dense(nb.T()), "SetSubMatrixTranspose(range, block)");
    put_check(nr, i0, 0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetRow(i0, x); }, dense(nr), "SetRow(start, rows)");
    put_check(nc, 0, j0, [&](DenseMatrix & e, const DenseMatrix & x) { e.SetCol(j0, x); }, dense(nc), "SetCol(start, columns)");
    MC_STEP("ranges ", i0, "..", i1, " x ", j0, "..", j1, " of ", r, "x", c);
}
MC_SCENARIO(index_lists, 8)
{
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4), len = mc::thorough() ? 4 : 3;
    Zeros zz(2);
    M m = full(r, c, 1);
    DenseMatrix d = dense(m);
    const DenseMatrix& cd = d;
    int what = mc::choose(3);
    if (what == 0)
    {
        auto R = choose_list(r, len + 1);
        std::vector<int> all; for (int j = 0; j < c; ++j) { all.push_back(j); }
        M w = pickm(m, R, all);
        same_dense(cd.GetRow(R), w, "GetRow(list)");
        DenseMatrix o = junk(w.r, w.c); cd.GetRow(R, o); same_dense(o, w, "GetRow(list) into a matrix");
        mc::state(mc::Hash().u(0).u(r).u(c).c(R));
        MC_STEP("GetRow(", R, ") of ", r, "x", c);
    }
    else if (what == 1)
    {
        auto R = choose_list(r, len), C = choose_list(c, 2);
        M w = pickm(m, R, C);
        same_dense(cd.GetSubMatrix(R, C), w, "GetSubMatrix(lists)");
        into([&](DenseMatrix & o) { cd.GetSubMatrix(R, C, o); }, w, "GetSubMatrix(lists)");
        mc::state(mc::Hash().u(1).u(r).u(c).c(R).c(C));
        MC_STEP("GetSubMatrix(", R, ",", C, ") of ", r, "x", c);
    }
    else
    {
        auto R = choose_list(r, 3), C = choose_list(c, 2);
        M b = full((int)R.size(), (int)C.size(), 1000); for (size_t k = 0; k < b.a.size(); ++k) { b.a[k] = 1 << (k + 8); }
        auto in = dense(b); auto R0 = R, C0 = C;
        d.AddSubMatrix(R, C, in);
        for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { m(R[i], C[j]) += b(i, j); }
        same_dense(in, b, "added block"); MC_CHECK(R == R0 && C == C0, "index lists changed");
        same_dense(d, m, "AddSubMatrix");
        mc::state(mc::Hash().u(2).u(r).u(c).c(R).c(C));
        MC_STEP("AddSubMatrix(", R, ",", C, ") of ", r, "x", c);
    }
    same_dense(d, m, "matrix");
}
MC_SCENARIO(stacking, 6)
{
    int n = 1 + mc::choose(4), r = mc::choose(4), tot = 0;
    Zeros zz(3);
    std::vector<DenseMatrix> l; std::vector<M> ms;
    for (int k = 0; k < n; ++k) { int c = mc::choose(4); ms.push_back(full(r, c, 100 * (k + 1))); l.push_back(dense(ms.back())); tot += c; }
    M w(r, tot); int at = 0; for (auto& x : ms) { put(w, 0, at, x); at += x.c; }
    same_dense(HStack(l), w, "HStack");
    into([&](DenseMatrix & o) { HStack(l, o); }, w, "HStack");
    for (int k = 0; k < n; ++k) { same_dense(l[k], ms[k], "stacked matrix"); }
    MC_CHECK(HStack(std::vector<DenseMatrix>()).Cols() == 0, "HStack of nothing");
    mc::Hash h; h.u(r); for (auto& x : ms) { h.u(x.c); } mc::state(h);
    MC_STEP("HStack of ", n, " matrices with ", tot, " columns");
}
MC_SCENARIO(histories, 4)
{
    int depth = mc::thorough() ? 5 : 4, shape = mc::choose(3);
    int r = shape == 0 ? 3 : shape == 1 ? 2 : 4, c = shape == 0 ? 3 : shape == 1 ? 4 : 2, tag = 1000;
    M m = full(r, c, 1);
    DenseMatrix d = dense(m);
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(12); tag += 100;
        switch (op)
        {
        case 0: { int i = mc::choose(m.r), j = mc::choose(m.c); d(i, j) = tag; m(i, j) = tag; break; }
        case 1: { int j = mc::choose(m.c); d.GetColView(j) = (double)tag; for (int i = 0; i < m.r; ++i) { m(i, j) = tag; } break; }
        case 2: { int i = mc::choose(m.r); auto v = d.GetRow(m.r - 1 - i); d.SetRow<double>(i, v); for (int j = 0; j < m.c; ++j) { m(i, j) = v[j]; } break; }
        case 3: { int i0 = mc::choose(m.r), j0 = mc::choose(m.c); M b = full(1, 1, tag); if (m.r - i0 > 1) { b = full(2, 1, tag); } d.SetSubMatrix(i0, j0, dense(b)); put(m, i0, j0, b); break; }
        case 4: { int i0 = mc::choose(m.r), j0 = mc::choose(m.c); M b = m.c - j0 > 1 ? full(2, 1, tag) : full(1, 1, tag); d.SetSubMatrixTranspose(i0, j0, dense(b)); put(m, i0, j0, b.T()); break; }
        case 5: { std::vector<int> R = {m.r - 1, 0}, C = {m.c - 1}; M b = full(2, 1, tag); d.AddSubMatrix(R, C, dense(b)); m(R[0], C[0]) += b(0, 0); m(R[1], C[0]) += b(1, 0); break; }
        case 6: { d = d.Transpose(); m = m.T(); break; }
        case 7: { int i0 = mc::choose(m.r); auto e = d.GetRow(i0, m.r); d = e; m = block(m, i0, 0, m.r, m.c); break; }
        case 8: { int j0 = mc::choose(m.c); auto e = d.GetCol(j0, m.c); d = e; m = block(m, 0, j0, m.r, m.c); break; }
        case 9: { if (m.c > 6) { mc::prune(); } std::vector<DenseMatrix> l = {d, d}; HStack(l, d); M w(m.r, 2 * m.c); put(w, 0, 0, m); put(w, 0, m.c, m); m = w; break; }
        case 10: { d.SetSize(m.r + 1, m.c); d = (double)tag; m = M(m.r + 1, m.c); for (double& v : m.a) { v = tag; } break; }
        case 11: { std::vector<int> R = {m.r - 1, 0, m.r - 1}, C = {0, m.c - 1}; d = d.GetSubMatrix(R, C); m = pickm(m, R, C); break; }
        }
        same_dense(d, m, mc::S("after operation ", op));
        mc::state(m.hash());
        MC_STEP("op ", op, " -> ", m.r, "x", m.c);
    }
}

// entries of unusual magnitude and precision through every kind of access
MC_SCENARIO(magnitudes, 4)
{
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4), mode = mc::choose(NMAG), what = mc::choose(10);
    M m = magnified(full(r, c, 1), mode);
    DenseMatrix d = dense(m);
    const DenseMatrix& cd = d;
    std::vector<int> R = {r - 1, 0}, C = {c - 1, 0, c - 1};
    std::vector<double> cm; for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { cm.push_back(m(i, j)); }
    switch (what)
    {
    case 0: same_dense(cd.Transpose(), m.T(), "transpose"); break;
    case 1: for (int j = 0; j < c; ++j) { same_vec(cd.GetCol(j), colof(m, j), "GetCol"); same_vec(cd.GetColView(j), colof(m, j), "GetColView"); } break;
    case 2: for (int i = 0; i < r; ++i) { same_vec(cd.GetRow(i), rowof(m, i), "GetRow"); Vector<double> v(c, nan()); VectorView<double>& vv = v; cd.GetRow(i, vv); same_vec(v, rowof(m, i), "GetRow into a view"); } break;
    case 3: same_dense(cd.GetSubMatrix(R, C), pickm(m, R, C), "GetSubMatrix(lists)"); same_dense(cd.GetSubMatrix(0, 0, r, c), m, "GetSubMatrix"); break;
    case 4: { M w = m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { w(R[i], C[j]) += m(i % r, j % c); } std::vector<int> ri = {0, 1 % r}, ci = {0, 1 % c, 2 % c}; M b = pickm(m, ri, ci); d.AddSubMatrix(R, C, dense(b)); same_dense(d, w, "AddSubMatrix"); break; }
    case 5: { DenseMatrix e(r, c); e.SetSubMatrix(0, 0, d); same_dense(e, m, "SetSubMatrix"); DenseMatrix t(c, r); t.SetSubMatrixTranspose(0, 0, d); same_dense(t, m.T(), "SetSubMatrixTranspose"); break; }
    case 6: { DenseMatrix e(r, c); for (int j = 0; j < c; ++j) { auto v = vec(colof(m, j)); e.SetCol<double>(j, v); } same_dense(e, m, "SetCol"); break; }
    case 7: { DenseMatrix e(r, c); for (int i = 0; i < r; ++i) { auto v = vec(rowof(m, i)); e.SetRow<double>(i, v); } same_dense(e, m, "SetRow"); break; }
    case 8: { std::vector<double> o; cd.CopyData(o); same_vec(o, cm, "CopyData"); same_dense(DenseMatrix(r, c, cm), m, "constructed from data"); break; }
    case 9: { std::vector<DenseMatrix> l = {d, d}; M w(r, 2 * c); put(w, 0, 0, m); put(w, 0, c, m); same_dense(HStack(l), w, "HStack"); DenseMatrix e = d; e.SetSize(r, c); same_dense(e, m, "SetSize to the same shape"); break; }
    }
    mc::state(mc::Hash().u(m.hash()).u(what));
    MC_STEP("access ", what, " of ", r, "x", c, " magnitude ", mode);
}

// sizes at which an implementation might change its algorithm
MC_SCENARIO(large, 4)
{
    static const int R[] = {1, 1030, 2, 257, 9000, 65, 300}, C[] = {5000, 3, 2050, 258, 1, 130, 65};
    int k = mc::choose(7), r = R[k], c = C[k], what = mc::choose(10);
    M m = full(r, c, 1);
    DenseMatrix d = dense(m);
    const DenseMatrix& cd = d;
    int i0 = r / 5, i1 = r - r / 7, j0 = c / 6, j1 = c - c / 9;
    std::vector<int> RL, CL; for (int i = 0; i < r; ++i) { if (i % 5 != 2 || r < 5) { RL.push_back(r - 1 - i); } } for (int j = 0; j < c; ++j) { if (j % 7 != 3) { CL.push_back((j * 2 + 1) % c); } }
    mc::state(mc::Hash().u(r).u(c).u(what).u(91));
    switch (what)
    {
    case 0: same_dense(cd.Transpose(), m.T(), "transpose"); into([&](DenseMatrix & o) { cd.Transpose(o); }, m.T(), "transpose"); break;
    case 1: for (int j : {0, c / 2, c - 1}) { same_vec(cd.GetCol(j), colof(m, j), "GetCol"); same_vec(cd.GetCol<int>(j), colof(m, j), "GetCol as integers"); same_vec(cd.GetColView(j), colof(m, j), "GetColView"); } break;
    case 2: for (int i : {0, r / 2, r - 1}) { same_vec(cd.GetRow(i), rowof(m, i), "GetRow"); same_vec(cd.GetRow<int>(i), rowof(m, i), "GetRow as integers"); Vector<double> v(c, nan()); VectorView<double>& vv = v; cd.GetRow(i, vv); same_vec(v, rowof(m, i), "GetRow into a view"); } break;
    case 3: { M b = block(m, i0, j0, i1, j1); same_dense(cd.GetSubMatrix(i0, j0, i1, j1), b, "GetSubMatrix"); into([&](DenseMatrix & o) { cd.GetSubMatrix(i0, j0, i1, j1, o); }, b, "GetSubMatrix"); same_dense(cd.GetRow(i0, i1), block(m, i0, 0, i1, c), "GetRow(start, end)"); same_dense(cd.GetCol(j0, j1), block(m, 0, j0, r, j1), "GetCol(start, end)"); break; }
    case 4: { M w = pickm(m, RL, CL); same_dense(cd.GetSubMatrix(RL, CL), w, "GetSubMatrix(lists)"); std::vector<int> all; for (int j = 0; j < c; ++j) { all.push_back(j); } same_dense(cd.GetRow(RL), pickm(m, RL, all), "GetRow(list)"); break; }
    case 5: { M b = full((int)RL.size(), (int)CL.size(), 8), w = m; for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { w(RL[i], CL[j]) += b(i, j); } auto e = dense(m); e.AddSubMatrix(RL, CL, dense(b)); same_dense(e, w, "AddSubMatrix"); break; }
    case 6:
        {
            M b = full(i1 - i0, j1 - j0, 9), w = m; put(w, i0, j0, b);
            auto e = dense(m); e.SetSubMatrix(i0, j0, dense(b)); same_dense(e, w, "SetSubMatrix"); e = dense(m); e.SetSubMatrix(i0, j0, i1, j1, dense(b)); same_dense(e, w, "SetSubMatrix(range)");
            e = dense(m); e.SetSubMatrixTranspose(i0, j0, dense(b.T())); same_dense(e, w, "SetSubMatrixTranspose"); e = dense(m); e.SetSubMatrixTranspose(i0, j0, i1, j1, dense(b.T())); same_dense(e, w, "SetSubMatrixTranspose(range)");
            break;
        }
    case 7:
        {
            M b = full(i1 - i0, c, 10), w = m; put(w, i0, 0, b); auto e = dense(m); e.SetRow(i0, dense(b)); same_dense(e, w, "SetRow(start, rows)");
            M b2 = full(r, j1 - j0, 11); w = m; put(w, 0, j0, b2); e = dense(m); e.SetCol(j0, dense(b2)); same_dense(e, w, "SetCol(start, columns)");
            w = m; e = dense(m); auto v = vec(ramp(r, 3)); auto u = vec(ramp(c, 4)); e.SetCol<double>(c / 2, v); for (int i = 0; i < r; ++i) { w(i, c / 2) = v[i]; } e.SetRow<double>(r / 2, u); for (int j = 0; j < c; ++j) { w(r / 2, j) = u[j]; } same_dense(e, w, "SetCol and SetRow");
            break;
        }
    case 8: { std::vector<double> o, cm; for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) { cm.push_back(m(i, j)); } cd.CopyData(o); same_vec(o, cm, "CopyData"); same_dense(DenseMatrix(r, c, cm), m, "constructed from data"); same_dense(DenseMatrix(r, c), M(r, c), "constructed"); DenseMatrix e; e.SetSize(r, c, 2.5); M w(r, c); for (double& v : w.a) { v = 2.5; } same_dense(e, w, "SetSize(r, c, value)"); e = dense(full(c, r, 3)); e.SetSize(r, c); M z = full(r, c, 77); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { e(i, j) = z(i, j); } same_dense(e, z, "resized"); break; }
    default: { std::vector<DenseMatrix> l; M w(r, 0); int n = c < 10 ? 40 : 3; w = M(r, n * c + 1); for (int q = 0; q < n; ++q) { M x = full(r, c, q + 1); l.push_back(dense(x)); put(w, 0, q * c, x); } M x = full(r, 1, 99); l.push_back(dense(x)); put(w, 0, n * c, x); same_dense(HStack(l), w, "HStack"); }
    }
    same_dense(d, m, mc::S("matrix after access ", what));
    MC_STEP("access ", what, " of ", r, "x", c);
}

// C03: in-place edits, extraction and queries of sparse matrices, as operation histories.
#include "lin.hpp"
#include "huge.hpp"
using namespace lin;
namespace
{
std::vector<std::vector<int>> perms(int n)
{
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) { p[i] = i; }
    std::vector<std::vector<int>> r;
    do { r.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
    return r;
}

template <typename T>
void queries(const SparseMatrix<T>& s, const M& m)
{
    double sum = 0, norm = 0;
    for (int i = 0; i < m.r; ++i)
    {
        std::vector<char> seen(m.c, 0);
        auto ix = s.GetIndices(i);
        auto d = s.GetData(i);
        auto view = s.GetIndicesView(i);
        MC_CHECK(ix.size() == d.size() && (int)ix.size() == view.size(), "row ", i, " lists ", ix.size(), " indices and ", d.size(), " values");
        for (size_t k = 0; k < ix.size(); ++k)
        {
            MC_CHECK(view[k] == ix[k], "index view of row ", i);
            MC_CHECK(m.s(i, ix[k]) && eq((double)d[k], m(i, ix[k])), "row ", i, " lists (", ix[k], ",", (double)d[k], "), expected value ", m(i, ix[k]));
            seen[ix[k]]++;
        }
        for (int j = 0; j < m.c; ++j) { sum += m.s(i, j) ? m(i, j) : 0; norm += std::fabs(m(i, j)); MC_CHECK(seen[j] == m.s(i, j), "row ", i, " position ", j, " listed ", (int)seen[j], " times"); }
    }
    SparseMatrix<T> w(s);                                  // the view of a row writes to that row
    for (int i = 0; i < m.r; ++i)
    {
        auto ix = s.GetIndices(i); VectorView<int> v = w.GetIndicesView(i); MC_CHECK(v.size() == (int)ix.size(), "writable index view of row ", i, " has ", v.size(), " entries, expected ", ix.size());
        for (size_t k = 0; k < ix.size(); ++k) { MC_CHECK(v[k] == ix[k], "writable index view of row ", i); v[k] = m.c - 1 - ix[k]; }
        for (int o = 0; o < m.r; ++o) { auto a = w.GetIndices(o), b = s.GetIndices(o); for (auto& j : b) { j = o <= i ? m.c - 1 - j : j; } MC_CHECK(a == b, "writing to the index view of row ", i, " changes row ", o); }
    }
    MC_CHECK((double)s.Sum() == sum, "Sum is ", s.Sum(), ", expected ", sum);
    MC_CHECK((double)s.MaxNorm() == norm, "sum of absolute values is ", s.MaxNorm(), ", expected ", norm);
    MC_CHECK(s.nnz() == m.nnz(), "nnz is ", s.nnz(), ", expected ", m.nnz());
    same_dense(s.ToDense(), m, "dense conversion");
    DenseMatrix d(m.r + 1, m.c, std::vector<double>((m.r + 1) * m.c, nan()));
    s.ToDense(d);
    same_dense(d, m, "dense conversion into a reused matrix");
    if (m.r == m.c)
    {
        auto diag = s.GetDiag();
        MC_CHECK((int)diag.size() == m.r, "diagonal length");
        for (int i = 0; i < m.r; ++i) { MC_CHECK(diag[i] == m(i, i), "diagonal entry ", i, " is ", diag[i], ", expected ", m(i, i)); }
    }
}

// One edit, all parameters chosen. full=false uses fewer parameter values.
int position(int n) { if (n <= 128) { return mc::choose(n); } int k = mc::choose(4); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : n - 1; }
template <typename T>
std::string edit(SparseMatrix<T>& s, M& m, bool full)
{
    enum { Sort, ScaleR, ScaleC, InvR, InvC, Mul, Div, SetAll, Perm, ElimRC, ElimRCm, ElimR, ElimC, ElimCm, ElimCxb, AddD, AddDv, Drop, Sub, Free, Direct, NOPS };
    int op = mc::choose(NOPS);
    auto each = [&](auto f) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.s(i, j)) { m(i, j) = f(i, j, m(i, j)); } };
    std::ostringstream o;
    const bool sq = m.r == m.c;
    auto marks = [&](int n) { std::vector<int> v(n); int w = 1 << std::min(n, 4), k = full ? mc::choose(w) : mc::choose(std::min(w, 3)) * 3 % w; for (int i = 0; i < n; ++i) { v[i] = k >> (i % 4) & 1; } return v; };
    switch (op)
    {
    case Sort:
        s.SortIndices();
        for (int i = 0; i < s.Rows(); ++i) { auto ix = s.GetIndices(i); MC_CHECK(std::is_sorted(ix.begin(), ix.end()), "row ", i, " is not sorted: ", ix); }
        o << "SortIndices";
        break;
    case ScaleR: case ScaleC: case InvR: case InvC:
    {
        bool rows = op == ScaleR || op == InvR, inv = op == InvR || op == InvC;
        int n = rows ? m.r : m.c, form = mc::choose(2);
        std::vector<T> v(n);
        static const double pw[] = {2, -1, 4, 1, -2};
        for (int i = 0; i < n; ++i) { v[i] = (T)((inv || i != 1) ? pw[i % 5] : 0); }
        if (inv && std::is_same<T, int>::value) { for (int i = 0; i < n; ++i) { v[i] = (i % 2) ? -1 : 1; } }
        if (form) { SparseMatrix<T> d(v); if (op == ScaleR) { s.ScaleRows(d); } if (op == ScaleC) { s.ScaleCols(d); } if (op == InvR) { s.InverseScaleRows(d); } if (op == InvC) { s.InverseScaleCols(d); } }
        else { if (op == ScaleR) { s.ScaleRows(v); } if (op == ScaleC) { s.ScaleCols(v); } if (op == InvR) { s.InverseScaleRows(v); } if (op == InvC) { s.InverseScaleCols(v); } }
        each([&](int i, int j, double x) { double f = (double)v[rows ? i : j]; return inv ? x / f : x * f; });
        o << (inv ? "InverseScale" : "Scale") << (rows ? "Rows" : "Cols") << (form ? "(matrix)" : "(vector)");
        break;
    }
    case Mul: { double k = std::is_same<T, int>::value ? mc::pick({-3.0, 0.0}) : mc::pick({-2.0, 0.5, 0.0}); s *= (T)k; each([&](int, int, double x) { return x * (T)k; }); o << "*= " << k; break; }
    case Div: { double k = std::is_same<T, int>::value ? -1 : mc::pick({-2.0, 0.5}); s /= (T)k; each([&](int, int, double x) { return x / (T)k; }); o << "/= " << k; break; }
    case SetAll: { s = (T)3; each([&](int, int, double) { return 3.0; }); o << "= 3"; break; }
    case Perm:
    {
        if (m.c > 4) { mc::prune(); }
        auto ps = perms(m.c);
        auto p = ps[full ? mc::choose((int)ps.size()) : (mc::choose((int)std::min<size_t>(ps.size(), 3)) * 2 + 1) % (int)ps.size()];
        s.PermuteCols(p);
        M q(m.r, m.c);
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.s(i, j)) { q.set(i, p[j], m(i, j)); }
        m = q;
        o << "PermuteCols " << mc::S(p);
        break;
    }
    case ElimRC:
    {
        int n = std::min(m.r, m.c);
        if (n == 0) { mc::prune(); }
        int k = position(n);
        s.EliminateRowCol(k);
        each([&](int i, int j, double x) { return i == k || j == k ? (i == j ? 1.0 : 0.0) : x; });
        o << "EliminateRowCol(" << k << ")";
        break;
    }
    case ElimRCm:
    {
        if (!sq) { mc::prune(); }
        auto v = marks(m.r);
        if (mc::flag()) { std::vector<bool> b(v.begin(), v.end()); s.EliminateRowCol(b); } else { s.EliminateRowCol(v); }
        each([&](int i, int j, double x) { return v[i] || v[j] ? (i == j ? 1.0 : 0.0) : x; });
        o << "EliminateRowCol" << mc::S(v);
        break;
    }
    case ElimR: { if (!m.r) { mc::prune(); } int k = position(m.r); s.EliminateRow(k); each([&](int i, int, double x) { return i == k ? 0.0 : x; }); o << "EliminateRow(" << k << ")"; break; }
    case ElimC: { if (!m.c) { mc::prune(); } int k = position(m.c); s.EliminateCol(k); each([&](int, int j, double x) { return j == k ? 0.0 : x; }); o << "EliminateCol(" << k << ")"; break; }
    case ElimCm: { auto v = marks(m.c); s.EliminateCol(v); each([&](int, int j, double x) { return v[j] ? 0.0 : x; }); o << "EliminateCol" << mc::S(v); break; }
    case ElimCxb:
    {
        auto v = marks(m.c);
        auto x = iramp(m.c, 1), b = iramp(m.r, 2);
        Vector<double> vx = vec(x), vb = vec(b);
        s.EliminateCol(v, vx, VectorView<double>(vb));
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (v[j]) { b[i] -= m(i, j) * x[j]; }
        each([&](int, int j, double y) { return v[j] ? 0.0 : y; });
        same_vec(vb, b, "right-hand side after column elimination");
        same_vec(vx, x, "solution vector after column elimination");
        o << "EliminateCol(x,b)" << mc::S(v);
        break;
    }
    case AddD: { if (!sq) { mc::prune(); } std::vector<T> v(m.r); for (int i = 0; i < m.r; ++i) { v[i] = i * 2 - 1; } s.AddDiag(v); each([&](int i, int j, double x) { return i == j ? x + (double)v[i] : x; }); o << "AddDiag(vector)"; break; }
    case AddDv: { if (!sq) { mc::prune(); } T v = (T)mc::pick({-4.0, 1.0}); s.AddDiag(v); each([&](int i, int j, double x) { return i == j ? x + (double)v : x; }); o << "AddDiag(" << v << ")"; break; }
    case Drop:
    {
        T tol = (T)(full ? mc::pick({0.0, 1.0, 2.0, 5.0}) : mc::pick({0.0, 2.0}));
        if (tol == 0 && mc::flag()) { s.EliminateZeros(); } else { s.EliminateZeros(tol); }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.s(i, j) && !(std::fabs(m(i, j)) > (double)tol)) { m.s(i, j) = 0; m(i, j) = 0; }
        o << "EliminateZeros(" << tol << ")";
        break;
    }
    case Sub:
    {
        std::vector<int> rows, cols;
        int k = mc::choose(full ? 4 : 3);
        if (k == 0) { for (int i = m.r - 1; i >= 0; --i) { rows.push_back(i); } for (int j = 0; j < m.c; ++j) { cols.push_back((j + 1) % m.c); } }
        if (k == 1) { for (int i = 0; i < m.r; i += 2) { rows.push_back(i); } for (int j = m.c - 1; j >= 1; --j) { cols.push_back(j); } }
        if (k == 2) { for (int i = 0; i < m.r; ++i) { rows.push_back(i); rows.push_back(i / 2); } rows.resize(std::min<size_t>(rows.size(), 4)); for (int j = 0; j < m.c; ++j) { cols.push_back(j); } }
        if (k == 3) { cols.push_back(0); if (!m.c) { mc::prune(); } }
        auto t = s.GetSubMatrix(rows, cols);
        std::vector<int> marker(m.c + 2, -1);
        auto t2 = s.GetSubMatrix(rows, cols, marker);
        for (int x : marker) { MC_CHECK(x == -1, "the extraction workspace was not restored: ", marker); }
        M q((int)rows.size(), (int)cols.size());
        for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.c; ++j) if (m.s(rows[i], cols[j])) { q.set(i, j, m(rows[i], cols[j])); }
        same_sparse(s, m, "source of a submatrix", true);
        same_sparse(t2, q, "submatrix with workspace", true);
        m = q;
        s = t;
        o << "submatrix rows " << mc::S(rows) << " cols " << mc::S(cols);
        break;
    }
    case Free: { auto t = s * (T)2; auto u = (T) - 1 * t; same_sparse(s, m, "operand of a scalar product", true); s = u; each([&](int, int, double x) { return -2 * x; }); o << "-1 * (A * 2)"; break; }
    case Direct:
    {   // edit through the exposed value array of a row view
        if (!s.nnz()) { mc::prune(); }
        s.GetData()[0] = 9;
        for (int i = 0, done = 0; i < m.r && !done; ++i) { auto ix = s.GetIndices(i); if (!ix.empty()) { m(i, ix[0]) = 9; done = 1; } }
        o << "first stored value = 9";
        break;
    }
    }
    return o.str();
}

void bounded(const M& m) { for (double v : m.a) { if (std::fabs(v) > 1e9 || (v != 0 && std::fabs(v) < 1e-6)) { mc::prune(); } } }
}

// every edit with every parameter on every pattern (values by position), every row order
MC_SCENARIO(one_edit_every_pattern, 6)
{
    int r = mc::choose(4), c = mc::choose(4);
    M m = choose_pattern(r, c);
    int order = r * c == 9 ? mc::pick({1, 2, 3, 4}) : mc::choose(NORD);
    auto s = sparse(m, order);
    MC_TRACE("A = ", m.str(), " order ", order);
    mc::state(mc::Hash().u(m.hash()).u(order));
    auto e = edit(s, m, true);
    MC_STEP(e);
    same_sparse(s, m, e, true);
    queries(s, m);
    mc::state(mc::Hash().u(m.hash()).u(8));
}

MC_SCENARIO(one_edit_values, 6)
{
    M m = choose_matrix(2, 2, {1, -2, 0, 2.5, -1});
    auto s = sparse(m, 1);
    MC_TRACE("A = ", m.str());
    mc::state(m.hash());
    auto e = edit(s, m, true);
    MC_STEP(e);
    same_sparse(s, m, e, true);
    queries(s, m);
}

MC_SCENARIO(integer_edits, 6)
{
    M m = choose_matrix(2, 2, {1, -2, 0, 4});
    auto s = sparse<int>(m, 1);
    MC_TRACE("A(int) = ", m.str());
    mc::state(mc::Hash().u(m.hash()).u(3));
    for (int d = 0; d < 2; ++d)
    {
        auto e = edit(s, m, false);
        MC_STEP(e);
        same_sparse(s, m, e, true);
        queries(s, m);
    }
}

MC_SCENARIO(histories, 4)
{
    int start = mc::choose(6);
    M m = start == 0 ? family(2, 3, 3) : start == 1 ? family(11, 3, 3) : start == 2 ? family(10, 4, 3) : start == 3 ? family(1, 4, 4) : start == 4 ? family(6, 2, 4) : family(3, 3, 3);
    auto s = sparse(m, start % 3);
    MC_TRACE("A = ", m.str());
    for (int d = 0; d < (mc::thorough() ? 4 : 3); ++d)
    {
        bounded(m);
        auto e = edit(s, m, false);
        MC_STEP(e);
        same_sparse(s, m, e, true);
        mc::state(m.hash());
    }
    queries(s, m);
}

// every row list (repeats allowed, any order) x every list of distinct columns, workspace shared by two extractions
MC_SCENARIO(every_submatrix, 5)
{
    int which = mc::choose(4);
    M m = which == 0 ? family(2, 3, 4) : which == 1 ? family(10, 4, 3) : which == 2 ? family(11, 3, 3) : family(1, 4, 4);
    auto s = sparse(m, which % 3);
    std::vector<int> marker(m.c, -1);
    for (int k = 0; k < 2; ++k)
    {
        std::vector<int> rows, cols;
        int nr = mc::choose(k ? 2 : 4);
        for (int i = 0; i < nr; ++i) { rows.push_back(mc::choose(m.r)); }
        int nc = mc::choose(std::min(m.c, k ? 2 : 4) + 1);
        for (int i = 0; i < nc; ++i)
        {
            std::vector<int> left;
            for (int j = 0; j < m.c; ++j) { if (std::find(cols.begin(), cols.end(), j) == cols.end()) { left.push_back(j); } }
            cols.push_back(mc::pick(left));
        }
        auto t = s.GetSubMatrix(rows, cols, marker);
        MC_STEP("submatrix rows ", rows, " cols ", cols);
        M q(nr, nc);
        for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) if (m.s(rows[i], cols[j])) { q.set(i, j, m(rows[i], cols[j])); }
        same_sparse(t, q, "submatrix", true);
        for (int x : marker) { MC_CHECK(x == -1, "the extraction workspace was not restored: ", marker); }
        mc::state(mc::Hash().u(which).c(rows).c(cols).u(k));
        if (k == 0) { same_sparse(s.GetSubMatrix(rows, cols), q, "submatrix without workspace", true); }
    }
    same_sparse(s, m, "source of a submatrix", true);
}

MC_SCENARIO(families, 3)
{
    static const int Q[] = {5, 8, 9, 15, 16, 17, 18, 31, 32, 33, 64, 65, 100, 128, 129, 257, 300};
    int n = Q[mc::choose(mc::thorough() ? 17 : 13)];
    int f = mc::choose(NFAM), shape = mc::choose(3), order = mc::choose(n <= 33 ? NORD : 3);
    M m = family(f, shape == 1 ? n / 2 + 1 : n, shape == 2 ? n / 3 + 1 : n);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(n).u(f).u(shape).u(order));
    MC_TRACE(m.r, "x", m.c, " ", FAM[f]);
    auto e = edit(s, m, false);
    MC_STEP(e);
    same_sparse(s, m, e, true);
    s.SortIndices();
    same_sparse(s, m, "after sorting", true);
    for (int i = 0; i < s.Rows(); ++i) { auto ix = s.GetIndices(i); MC_CHECK(std::is_sorted(ix.begin(), ix.end()), "row ", i, " is not sorted"); }
    if (n <= 33) { queries(s, m); }
}

// constructors: sizes, diagonal
MC_SCENARIO(constructors, 1)
{
    int r = mc::choose(5), c = mc::choose(5), k = mc::choose(4);
    M m(k == 0 ? 0 : r, k == 0 ? 0 : k == 2 ? c : r);
    mc::state(mc::Hash().u(r).u(c).u(k));
    MC_STEP("constructor ", k);
    if (k == 0) { SparseMatrix<double> s; same_sparse(s, m, "default matrix", true); queries(s, m); }
    if (k == 1) { SparseMatrix<double> s(r); same_sparse(s, m, "square matrix", true); queries(s, m); }
    if (k == 2) { SparseMatrix<double> s(r, c); same_sparse(s, m, "rectangular matrix", true); queries(s, m); }
    if (k == 3) { std::vector<double> d; for (int i = 0; i < r; ++i) { d.push_back(i - 1); m.set(i, i, i - 1); } SparseMatrix<double> s(d); same_sparse(s, m, "diagonal matrix", true); queries(s, m); }
}

// entries of unusual magnitude and precision
MC_SCENARIO(magnitudes, 6)
{
    int r = mc::pick({2, 3, 5}), c = mc::pick({2, 3, 5}), f = mc::pick({2, 10, 11, 1}), mode = mc::choose(NMAG);
    M m = magnified(family(f, r, c), mode);
    auto s = sparse(m, 0);
    MC_TRACE("A = ", m.str(), " magnitude ", mode);
    std::string o = edit(s, m, false);
    MC_STEP(o);
    mc::state(m.hash());
    same_sparse(s, m, o, true);
    queries(s, m);
}

// sizes at which an implementation might change its algorithm
MC_SCENARIO(large, 3)
{
    static const int R[] = {257, 257, 1025, 4, 4100, 1, 1030}, C[] = {257, 257, 1025, 4100, 3, 9000, 1}, F[] = {1, 3, 9, 2, 10, 10, 2};
    int k = mc::choose(mc::thorough() ? 8 : 7), f = k == 7 ? mc::choose(6) : F[k], order = k % 2 * 2;
    if (k == 7) { k = 2; }
    M m = family(f, R[k], C[k]);
    auto s = sparse(m, order);
    mc::state(mc::Hash().u(R[k]).u(C[k]).u(f).u(order).u(99));
    MC_TRACE(m.r, "x", m.c, " ", FAM[f], " order ", order);
    auto e = edit(s, m, false);
    MC_STEP(e);
    same_sparse(s, m, e, true);
    s.SortIndices();
    same_sparse(s, m, "after sorting", true);
    for (int i = 0; i < s.Rows(); ++i) { auto ix = s.GetIndices(i); MC_CHECK(std::is_sorted(ix.begin(), ix.end()), "row ", i, " is not sorted"); }
    double sum = 0, norm = 0; for (double v : m.a) { sum += v; norm += std::fabs(v); }
    MC_CHECK((double)s.Sum() == sum && (double)s.MaxNorm() == norm && s.nnz() == m.nnz(), "sums of ", m.r, "x", m.c);
    same_dense(s.ToDense(), m, "dense conversion");
    if (m.r == m.c) { auto d = s.GetDiag(); for (int i = 0; i < m.r; ++i) { MC_CHECK(d[i] == m(i, i), "diagonal entry ", i); } }
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    int k = mc::choose(huge::SHAPES), order = mc::choose(2), op = mc::choose(12); huge::H h = huge::make(k, 2); auto s = huge::sparse(h, order); bool sq = h.r == h.c;
    auto each = [&](auto f) { for (auto& x : h.e) { x.second = f(x.first.first, x.first.second, x.second); } };
    auto sparse_marks = [](int n) { std::vector<int> v(n, 0); for (int i = 0; i < n; i += 977) { v[i] = 1; } v[n - 1] = 1; return v; };
    std::string what = mc::S("edit ", op, " of ", h.r, "x", h.c);
    switch (op)
    {
    case 0: s.SortIndices(); for (int i = 0; i < h.r; ++i) { const auto v = s.GetIndicesView(i); for (int j = 1; j < v.size(); ++j) { MC_CHECK(v[j - 1] < v[j], "row ", i, " is not sorted"); } } break;
    case 1: { std::vector<double> v(h.r); for (int i = 0; i < h.r; ++i) { v[i] = 1 << (i % 5); } s.ScaleRows(v); each([&](int i, int, double x) { return x * v[i]; }); break; }
    case 2: { std::vector<double> v(h.c); for (int i = 0; i < h.c; ++i) { v[i] = 1 << (i % 5); } s.InverseScaleCols(v); each([&](int, int j, double x) { return x / v[j]; }); break; }
    case 3: { std::vector<int> p(h.c); for (int j = 0; j < h.c; ++j) { p[j] = h.c - 1 - j; } s.PermuteCols(p); huge::H q(h.r, h.c); for (auto& x : h.e) { q.e[{x.first.first, p[x.first.second]}] = x.second; } h = q; break; }
    case 4: { int i = mc::pick({0, 977, std::min(h.r, h.c) - 1}) % std::min(h.r, h.c); s.EliminateRowCol(i); each([&](int a, int b, double x) { return a == i || b == i ? (a == b ? 1.0 : 0.0) : x; }); break; }
    case 5: { if (!sq) { mc::prune(); } auto v = sparse_marks(h.r); s.EliminateRowCol(v); each([&](int i, int j, double x) { return v[i] || v[j] ? (i == j ? 1.0 : 0.0) : x; }); break; }
    case 6: { auto v = sparse_marks(h.c); s.EliminateCol(v); each([&](int, int j, double x) { return v[j] ? 0.0 : x; }); break; }
    case 7: { auto v = sparse_marks(h.c); auto x = iramp(h.c, 1), b = iramp(h.r, 2); auto vx = vec(x), vb = vec(b); s.EliminateCol(v, vx, VectorView<double>(vb)); for (auto& y : h.e) { if (v[y.first.second]) { b[y.first.first] -= y.second * x[y.first.second]; y.second = 0; } } huge::same_long(vb, b, "right-hand side after column elimination"); break; }
    case 8: { s.EliminateZeros(2.0); for (auto i = h.e.begin(); i != h.e.end();) { i = std::fabs(i->second) > 2 ? std::next(i) : h.e.erase(i); } MC_CHECK(s.nnz() == (int)h.e.size(), what, ": ", s.nnz(), " entries are left, expected ", h.e.size()); break; }
    case 9: { if (sq) { std::vector<double> d(h.r, 0.0); for (auto& x : h.e) { if (x.first.first == x.first.second) { d[x.first.first] = x.second; } } huge::same_long(s.GetDiag(), d, "diagonal"); s.AddDiag(4.0); each([&](int i, int j, double x) { return i == j ? x + 4 : x; }); } double sum = 0, n = 0; for (auto& x : h.e) { sum += x.second; n += std::fabs(x.second); } MC_CHECK(s.Sum() == sum && s.MaxNorm() == n, "sums"); break; }
    case 10: { s.EliminateRow(h.r - 1); s.EliminateCol(h.c - 1); s.EliminateRow(h.r / 2); each([&](int i, int j, double x) { return i == h.r - 1 || i == h.r / 2 || j == h.c - 1 ? 0.0 : x; }); break; }
    default:
        {
            std::vector<int> rows, cols; for (int i = h.r - 1; i >= 0; i -= 61) { rows.push_back(i); } rows.push_back(0); rows.push_back(h.r / 2); for (int j = h.c / 2; j < h.c; ++j) { cols.push_back(j); } cols.push_back(0);
            auto t = s.GetSubMatrix(rows, cols); huge::H q(rows.size(), cols.size()); std::map<int, int> at; for (size_t j = 0; j < cols.size(); ++j) { at[cols[j]] = j; }
            for (size_t i = 0; i < rows.size(); ++i) { for (auto x = h.e.lower_bound({rows[i], 0}); x != h.e.end() && x->first.first == rows[i]; ++x) { auto a = at.find(x->first.second); if (a != at.end()) { q.e[{(int)i, a->second}] = x->second; } } }
            huge::same(t, q, "submatrix");
        }
    }
    huge::same(s, h, what); mc::state(mc::Hash().u(k).u(order).u(op).u(503)); MC_STEP(what, " order ", order);
}

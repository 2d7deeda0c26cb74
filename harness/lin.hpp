// Reference model shared by the harnesses: a matrix is a plain table of doubles (with a stored/absent flag).
#ifndef LIN_HPP
#define LIN_HPP
#include "linalgcpp.hpp"
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <set>

namespace lin
{
using namespace linalgcpp;

struct M
{
    int r = 0, c = 0;
    std::vector<double> a;          // row-major values
    std::vector<char> st;           // stored (sparse) or not
    M() = default;
    M(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0.0), st((size_t)r_ * c_, 0) {}
    double& operator()(int i, int j) { return a[(size_t)i * c + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    char& s(int i, int j) { return st[(size_t)i * c + j]; }
    char s(int i, int j) const { return st[(size_t)i * c + j]; }
    void set(int i, int j, double v) { (*this)(i, j) = v; s(i, j) = 1; }
    int nnz() const { int n = 0; for (char x : st) { n += x; } return n; }
    M T() const { M t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { t(j, i) = (*this)(i, j); t.s(j, i) = s(i, j); } return t; }
    M mul(const M& b) const
    {
        M o(r, b.c);
        for (int i = 0; i < r; ++i) for (int j = 0; j < b.c; ++j) { double v = 0; for (int k = 0; k < c; ++k) { v += (*this)(i, k) * b(k, j); } o(i, j) = v; }
        return o;
    }
    std::vector<double> mul(const std::vector<double>& x) const
    { std::vector<double> y(r, 0.0); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { y[i] += (*this)(i, j) * x[j]; } return y; }
    uint64_t hash() const { mc::Hash h; h.u(r).u(c).c(a); for (char x : st) { h.u(x); } return h; }
    std::string str() const
    {
        std::ostringstream o;
        o << r << "x" << c << "{";
        for (int i = 0; i < r; ++i) { o << (i ? "; " : ""); for (int j = 0; j < c; ++j) { o << (j ? " " : ""); if (s(i, j)) { o << (*this)(i, j); } else { o << "."; } } if (i > 12) { o << " ..."; break; } }
        o << "}";
        return o.str();
    }
};

// a few ulp, so that an equivalent order of rounding is no alarm; the data are chosen so that exact results are expected
inline bool eq(double a, double b) { return a == b || (std::isfinite(b) && std::fabs(a - b) <= 4e-16 * std::fabs(b)); }

static const int NORD = 6;
// order: 0 ascending columns, 1 descending, 2 rotated by row, 3 only the last row with two entries out of order, 4 only the end of each row, 5 only the first row
template <typename T = double>
SparseMatrix<T> sparse(const M& m, int order = 0)
{
    std::vector<int> ip(1, 0), ix;
    std::vector<T> d;
    int first = -1, last = -1;
    for (int i = 0; i < m.r; ++i) { int n = 0; for (int j = 0; j < m.c; ++j) { n += m.s(i, j); } if (n > 1) { last = i; if (first < 0) { first = i; } } }
    for (int i = 0; i < m.r; ++i)
    {
        std::vector<int> cols;
        for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { cols.push_back(j); } }
        if (order == 1 || (order == 3 && i == last) || (order == 5 && i == first)) { std::reverse(cols.begin(), cols.end()); }
        if (order == 2 && cols.size() > 1) { std::rotate(cols.begin(), cols.begin() + 1 + (i % (cols.size() - 1)), cols.end()); }
        if (order == 4 && cols.size() > 1) { std::swap(cols.back(), cols[cols.size() - 2]); }
        for (int j : cols) { ix.push_back(j); d.push_back((T)m(i, j)); }
        ip.push_back((int)ix.size());
    }
    return SparseMatrix<T>(ip, ix, d, m.r, m.c);
}

inline DenseMatrix dense(const M& m)
{
    DenseMatrix d(m.r, m.c);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { d(i, j) = m(i, j); }
    return d;
}

template <typename T = double>
Vector<T> vec(const std::vector<double>& v) { Vector<T> r((int)v.size()); for (size_t i = 0; i < v.size(); ++i) { r[i] = (T)v[i]; } return r; }

template <typename V>
std::vector<double> stdv(const V& v) { std::vector<double> r; for (int i = 0; i < (int)v.size(); ++i) { r.push_back((double)v[i]); } return r; }

template <typename V>
void same_vec(const V& got, const std::vector<double>& want, const std::string& what)
{
    MC_CHECK((int)got.size() == (int)want.size(), what, ": size ", got.size(), " expected ", want.size());
    for (int i = 0; i < (int)want.size(); ++i)
    {
        if (!eq((double)got[i], want[i])) { mc::fail(mc::S(what, ": entry ", i, " is ", (double)got[i], ", expected ", want[i])); }
    }
}

// CSR well-formedness + entries. stored: also compare which entries are stored
template <typename T>
void same_sparse(const SparseMatrix<T>& s, const M& m, const std::string& what, bool stored = false, bool nodup = true)
{
    MC_CHECK(s.Rows() == m.r && s.Cols() == m.c, what, ": shape ", s.Rows(), "x", s.Cols(), " expected ", m.r, "x", m.c);
    const auto& ip = s.GetIndptr();
    const auto& ix = s.GetIndices();
    const auto& d = s.GetData();
    MC_CHECK((int)ip.size() == m.r + 1, what, ": row pointer has ", ip.size(), " entries for ", m.r, " rows");
    MC_CHECK(ip[0] == 0 && ix.size() == d.size() && ip[m.r] == (int)ix.size() && s.nnz() == (int)ix.size(), what, ": row pointer ", ip, " does not delimit ", ix.size(), " entries");
    std::vector<double> row(m.c, 0.0);
    std::vector<char> seen(m.c, 0);
    for (int i = 0; i < m.r; ++i)
    {
        MC_CHECK(ip[i] <= ip[i + 1], what, ": row pointer not monotone at row ", i);
        MC_CHECK(s.RowSize(i) == ip[i + 1] - ip[i], what, ": RowSize");
        std::fill(row.begin(), row.end(), 0.0);
        std::fill(seen.begin(), seen.end(), 0);
        for (int k = ip[i]; k < ip[i + 1]; ++k)
        {
            MC_CHECK(ix[k] >= 0 && ix[k] < m.c, what, ": column index ", ix[k], " in row ", i);
            if (nodup) { MC_CHECK(!seen[ix[k]], what, ": entry (", i, ",", ix[k], ") is stored twice"); }
            seen[ix[k]] = 1;
            row[ix[k]] += (double)d[k];
        }
        for (int j = 0; j < m.c; ++j)
        {
            if (!eq(row[j], m(i, j))) { mc::fail(mc::S(what, ": entry (", i, ",", j, ") is ", row[j], ", expected ", m(i, j))); }
            if (stored && seen[j] != m.s(i, j)) { mc::fail(mc::S(what, ": entry (", i, ",", j, ") is ", seen[j] ? "stored" : "absent", " in the sparsity pattern, expected otherwise")); }
        }
    }
}

inline void same_dense(const DenseMatrix& d, const M& m, const std::string& what)
{
    MC_CHECK(d.Rows() == m.r && d.Cols() == m.c, what, ": shape ", d.Rows(), "x", d.Cols(), " expected ", m.r, "x", m.c);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
        {
            if (!eq(d(i, j), m(i, j))) { mc::fail(mc::S(what, ": entry (", i, ",", j, ") is ", d(i, j), ", expected ", m(i, j))); }
        }
}

// every r x c matrix whose cells are absent or one of `vals`
inline M choose_matrix(int r, int c, const std::vector<double>& vals)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int k = mc::choose((int)vals.size() + 1); if (k) { m.set(i, j, vals[k - 1]); } }
    return m;
}
// every sparsity pattern, with distinct values by position
inline M choose_pattern(int r, int c, double base = 1)
{
    static const double v[] = {1, -2, 3, 5, -7, 11, 13, -17, 19, 0.5, -23, 29, 31, -37, 41, 43};
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (mc::choose(2)) { m.set(i, j, base * v[(i * c + j) % 16]); } }
    return m;
}
inline double cell(int i, int j, int seed) { long h = (long)(i + 1) * 7919 + (long)(j + 1) * 104729 + seed * 1299709L; h = (h ^ (h >> 7)) % 13; double v = (double)(h - 6); return v == 0 ? 7 : v; }

static const char* const FAM[] = {"diag", "tridiag", "full", "arrow", "one-row", "one-col", "checker", "empty", "last-entry", "banded-wide", "scatter", "zeros"};
static const int NFAM = 12;
inline M family(int f, int r, int c, int seed = 1)
{
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
        {
            bool on = false;
            switch (f)
            {
            case 0: on = i == j; break;
            case 1: on = std::abs(i - j) <= 1; break;
            case 2: on = true; break;
            case 3: on = i == 0 || j == 0 || i == j; break;
            case 4: on = i == r / 2; break;
            case 5: on = j == c / 2; break;
            case 6: on = (i + j) % 2 == 0; break;
            case 7: on = false; break;
            case 8: on = i == r - 1 && j == c - 1; break;
            case 9: on = j >= i && j < i + 7; break;
            case 10: on = (i * 31 + j * 17) % 11 == 0; break;
            case 11: on = (i + 2 * j) % 3 == 0; break;
            }
            if (on) { m.set(i, j, (f == 11 && (i + j) % 2) ? 0.0 : cell(i, j, seed)); }
        }
    return m;
}

// the same matrix with entries that single precision, absolute tolerances or relative drop tolerances would damage
static const int NMAG = 6;
inline M magnified(M m, int mode)
{
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
            { m(i, j) *= mode == 0 ? 1 + std::ldexp(1.0, -27) : mode == 1 ? std::ldexp(1.0, -200) : mode == 2 ? std::ldexp(1.0, 200) : mode == 4 ? std::ldexp(1.0, -1000) : mode == 5 ? std::ldexp(1.0, 1000) : (i + j) % 2 ? std::ldexp(1.0, -30) : 1.0; }
    return m;
}

inline std::vector<double> ramp(int n, int seed = 0) { std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = ((i * 5 + seed * 3) % 17) - 8 + (i % 4) * 0.25; } return v; }
inline std::vector<double> iramp(int n, int seed = 0) { std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = ((i * 5 + seed * 3) % 17) - 8; } return v; }
inline double nan() { return std::numeric_limits<double>::quiet_NaN(); }
}
#endif

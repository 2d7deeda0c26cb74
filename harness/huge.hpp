// Matrices whose shape has more cells than an int can count, kept as lists of entries.
#ifndef HUGE_HPP
#define HUGE_HPP
#include "lin.hpp"
#include <map>
namespace huge
{
using namespace lin;
struct H
{
    int r = 0, c = 0; std::map<std::pair<int, int>, double> e;
    H(int r_ = 0, int c_ = 0) : r(r_), c(c_) {}
    H T() const { H t(c, r); for (auto& x : e) { t.e[{x.first.second, x.first.first}] = x.second; } return t; }
    H mul(const H& b) const
    {
        std::map<int, std::vector<std::pair<int, double>>> rows; for (auto& y : b.e) { rows[y.first.first].push_back({y.first.second, y.second}); }
        H o(r, b.c); for (auto& x : e) { auto i = rows.find(x.first.second); if (i != rows.end()) { for (auto& y : i->second) { o.e[{x.first.first, y.first}] += x.second * y.second; } } }
        return o;
    }
    std::vector<double> mul(const std::vector<double>& x) const { std::vector<double> y(r, 0.0); for (auto& k : e) { y[k.first.first] += k.second * x[k.first.second]; } return y; }
    uint64_t hash() const { mc::Hash h; h.u(r).u(c); for (auto& k : e) { h.u(k.first.first).u(k.first.second).d(k.second); } return h; }
};
const int SHAPES = 5;
// entries in the corners, along the diagonal, in pairs of positions that coincide modulo 2^16 and 2^32 of the cell number, and scattered
inline H make(int shape, int seed)
{
    static const int R[] = {70001, 100003, 65537, 3, 262147}, C[] = {70001, 100003, 131071, 700001, 40009};
    H h(R[shape], C[shape]); auto put = [&](long i, long j, double v) { h.e[{(int)(i % h.r), (int)(j % h.c)}] = v; };
    put(0, 0, 3); put(h.r - 1, h.c - 1, -2); put(0, h.c - 1, 5); put(h.r - 1, 0, 7);
    for (int k = 0; k < 40; ++k) { put(k * 977L + seed, k * 977L + seed, 1 + k % 5); put(k * 65536L, k * 256L + 3, -1 - k % 3); put(k * 7919L * (seed + 1), k * 104729L + seed, 2 + k % 7); }
    // cells whose numbers differ by multiples of 2^32
    long base = 5L * h.c + 11; for (long m = 0; m < 4; ++m) { long cell = base + (m << 32); if (cell / h.c < h.r) { put(cell / h.c, cell % h.c, 11 + m); } }
    for (int k = 0; k < 12; ++k) { put(h.r / 2, k * 4099L, 1 + k); put(k * 4099L, h.c / 2, -1 - k); }
    return h;
}
template <typename T = double> SparseMatrix<T> sparse(const H& h, int order = 0)
{
    std::vector<int> ip(h.r + 1, 0), ix; std::vector<T> d;
    for (auto& x : h.e) { ip[x.first.first + 1]++; ix.push_back(x.first.second); d.push_back((T)x.second); }
    for (int i = 0; i < h.r; ++i) { ip[i + 1] += ip[i]; }
    if (order) { for (int i = 0; i < h.r; ++i) { std::reverse(ix.begin() + ip[i], ix.begin() + ip[i + 1]); std::reverse(d.begin() + ip[i], d.begin() + ip[i + 1]); } }
    return SparseMatrix<T>(std::move(ip), std::move(ix), std::move(d), h.r, h.c);
}
// stored zeros count as absent; stored = every entry of h has to be stored
template <typename T> void same(const SparseMatrix<T>& s, const H& h, const std::string& what)
{
    MC_CHECK(s.Rows() == h.r && s.Cols() == h.c, what, ": shape ", s.Rows(), "x", s.Cols(), ", expected ", h.r, "x", h.c);
    const auto& ip = s.GetIndptr(); const auto& ix = s.GetIndices(); const auto& d = s.GetData();
    MC_CHECK((int)ip.size() == h.r + 1 && ip[0] == 0 && ip.back() == (int)ix.size() && ix.size() == d.size(), what, ": malformed");
    std::map<std::pair<int, int>, double> got;
    for (int i = 0; i < h.r; ++i) for (int k = ip[i]; k < ip[i + 1]; ++k) { MC_CHECK(ix[k] >= 0 && ix[k] < h.c, what, ": column ", ix[k]); MC_CHECK(got.insert({{i, ix[k]}, (double)d[k]}).second, what, ": entry ", i, ",", ix[k], " is stored twice"); }
    for (auto& x : h.e) { auto g = got.find(x.first); double v = g == got.end() ? 0 : g->second; MC_CHECK(eq(v, x.second), what, ": entry ", x.first.first, ",", x.first.second, " is ", v, ", expected ", x.second); if (g != got.end()) { got.erase(g); } }
    for (auto& g : got) { MC_CHECK(g.second == 0, what, ": entry ", g.first.first, ",", g.first.second, " is ", g.second, ", expected none"); }
}
template <typename V> void same_long(const V& v, const std::vector<double>& w, const std::string& what)
{
    MC_CHECK((size_t)v.size() == w.size(), what, ": size ", v.size(), ", expected ", w.size());
    for (size_t i = 0; i < w.size(); ++i) { if (!eq((double)v[i], w[i])) { MC_CHECK(false, what, ": entry ", i, " is ", (double)v[i], ", expected ", w[i]); } }
}
}
#endif

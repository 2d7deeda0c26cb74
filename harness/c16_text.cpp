// C16: text files round-trip.  What a writer produced is read back by the library and by an independent reader of the
// documented format.
#include "huge.hpp"
#include "io.hpp"
using namespace io;
namespace
{
const std::vector<double> VAL = {0, 1, -1, 0.1, -1.0 / 3, 2.5e-7, -1e300, 123456789012345680.0, 1e-308, 4.9406564584124654e-324, 1e16 + 2, 0.30000000000000004, 1e22, -1.2345678901234567e-5};
const std::vector<double> IVAL = {0, 1, -1, 2147483647, -2147483648.0, 10, 1000000};
template <typename T, typename V> void vec_case(const V& v, const std::vector<double>& want, const std::string& what)
{
    std::string p = path(); if (want.size() % 2) { put(p, "old content of the file 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20"); }
    WriteText(v, p);
    auto w = words(get(p));
    MC_CHECK(w.size() == want.size(), what, ": ", w.size(), " lines for ", want.size(), " entries");
    for (size_t k = 0; k < want.size(); ++k) { MC_CHECK(w[k].size() == 1 && same_value<T>((T)num(w[k][0]), want[k]), what, ": line ", k, " of the file"); }
    auto r = ReadText<T>(p);
    MC_CHECK(r.size() == want.size(), what, ": ", r.size(), " entries read, ", want.size(), " written");
    for (size_t k = 0; k < want.size(); ++k) { MC_CHECK(same_value<T>(r[k], want[k]), what, ": entry ", k, " is ", (double)r[k], " expected ", want[k]); }
}
void vectors(const std::vector<double>& w, bool integer)
{
    mc::state(mc::Hash().u(integer).c(w));
    if (integer) { std::vector<int> s; for (double x : w) { s.push_back((int)x); } vec_case<int>(s, w, "std::vector<int>"); vec_case<int>(vec<int>(w), w, "Vector<int>"); }
    else { vec_case<double>(w, w, "std::vector<double>"); auto v = vec(w); vec_case<double>(v, w, "Vector<double>"); std::vector<double> s = w; VectorView<double> vv(s); vec_case<double>(vv, w, "VectorView<double>"); }
    MC_STEP("vector ", w);
}
// pattern of a table / graph (values ignored)
std::vector<E> ones(std::vector<E> e) { for (auto& x : e) { x.v = 1; } return e; }
template <typename T> void matrix_case(const M& m, int order, bool symmetric)
{
    auto s = sparse<T>(m, order); std::string p = path();
    auto e = entries(m); std::string what;
    // compressed rows
    what = "CSR";
    WriteCSR(s, p);
    {
        std::vector<std::string> f; for (auto& l : words(get(p))) { f.insert(f.end(), l.begin(), l.end()); }
        size_t n = e.size(); MC_CHECK(f.size() == 2 + m.r + 1 + 2 * n, what, ": the file has ", f.size(), " numbers");
        MC_CHECK(whole(f[0]) == m.r && whole(f[1]) == m.c, what, ": size in the file");
        std::vector<E> g; for (int i = 0; i < m.r; ++i) for (int k = whole(f[2 + i]); k < whole(f[3 + i]); ++k) { g.push_back({i, whole(f[3 + m.r + k]), num(f[3 + m.r + n + k])}); }
        auto x = e; sort(g); bool ok = g.size() == x.size(); for (size_t k = 0; ok && k < x.size(); ++k) { ok = g[k].i == x[k].i && g[k].j == x[k].j && same_value<T>((T)g[k].v, x[k].v); }
        MC_CHECK(ok, what, ": the file holds ", str(g), ", expected ", str(x));
    }
    same(ReadCSR<T>(p), m.r, m.c, e, what);
    // Matrix Market
    what = "Matrix Market";
    WriteMTX(s, p);
    {
        auto w = words(get(p));
        MC_CHECK(w.size() == 2 + e.size() && w[0].size() == 5 && w[0][0] == "%%MatrixMarket" && w[0][1] == "matrix" && w[0][2] == "coordinate" && w[0][4] == "general", what, ": the file has no valid banner");
        MC_CHECK(w[1].size() == 3 && whole(w[1][0]) == m.r && whole(w[1][1]) == m.c && whole(w[1][2]) == (int)e.size(), what, ": size line");
        std::vector<E> g; for (size_t k = 2; k < w.size(); ++k) { MC_CHECK(w[k].size() == 3, what, ": line"); g.push_back({whole(w[k][0]) - 1, whole(w[k][1]) - 1, num(w[k][2])}); }
        sort(g); for (size_t k = 0; k < e.size(); ++k) { MC_CHECK(g[k].i == e[k].i && g[k].j == e[k].j && same_value<T>((T)g[k].v, e[k].v), what, ": the file holds ", str(g)); }
    }
    same(ReadMTX<T>(p), m.r, m.c, e, what);
    // coordinate and adjacency lists: the shape is that of the largest indices
    for (int sym = 0; sym <= (symmetric ? 1 : 0); ++sym)
    {
        auto want = e; auto bb = bounding(want);
        std::vector<E> file; for (auto& x : e) { if (!sym || x.j >= x.i) { file.push_back(x); } }
        what = sym ? "symmetric coordinate list" : "coordinate list";
        WriteCooList(s, p, sym);
        auto w = words(get(p)); MC_CHECK(w.size() == file.size(), what, ": ", w.size(), " lines for ", file.size(), " entries");
        std::vector<E> g; for (auto& l : w) { MC_CHECK(l.size() == 3, what, ": line"); g.push_back({whole(l[0]), whole(l[1]), num(l[2])}); }
        sort(g); for (size_t k = 0; k < file.size(); ++k) { MC_CHECK(g[k].i == file[k].i && g[k].j == file[k].j && same_value<T>((T)g[k].v, file[k].v), what, ": the file holds ", str(g), ", expected ", str(file)); }
        same(ReadCooList<T>(p, sym), bb.first, bb.second, want, what);
        what = sym ? "symmetric adjacency list" : "adjacency list";
        WriteAdjList(s, p, sym);
        w = words(get(p)); MC_CHECK(w.size() == file.size(), what, ": lines");
        g.clear(); for (auto& l : w) { MC_CHECK(l.size() == 2, what, ": line"); g.push_back({whole(l[0]), whole(l[1]), 1}); }
        sort(g); for (size_t k = 0; k < file.size(); ++k) { MC_CHECK(g[k].i == file[k].i && g[k].j == file[k].j, what, ": the file holds ", str(g)); }
        same(ReadAdjList<T>(p, sym), bb.first, bb.second, ones(want), what);
    }
    // table: one line per row
    what = "table";
    WriteTable(s, p);
    {
        auto w = words(get(p)); MC_CHECK((int)w.size() == m.r, what, ": ", w.size(), " lines for ", m.r, " rows");
        for (int i = 0; i < m.r; ++i) { std::vector<int> a, b; for (auto& x : w[i]) { a.push_back(whole(x)); } for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { b.push_back(j); } } std::sort(a.begin(), a.end()); MC_CHECK(a == b, what, ": row ", i, " in the file is ", a, " expected ", b); }
    }
    int cols = 0; for (auto& x : e) { cols = std::max(cols, x.j + 1); }
    same(ReadTable<T>(p), m.r, cols, ones(e), what);
    MC_STEP("matrix ", m.str(), " order ", order);
}
bool is_symmetric(const M& m) { if (m.r != m.c) { return false; } for (int i = 0; i < m.r; ++i) for (int j = 0; j < i; ++j) { if (m.s(i, j) != m.s(j, i) || m(i, j) != m(j, i)) { return false; } } return true; }
void both(const M& m, int order, bool integer)
{
    mc::state(mc::Hash().u(m.hash()).u(order).u(integer));
    if (integer) { matrix_case<int>(m, order, is_symmetric(m)); } else { matrix_case<double>(m, order, is_symmetric(m)); }
}
}
MC_SCENARIO(vectors_small, 4)
{
    bool integer = mc::flag(); int n = mc::choose(mc::thorough() ? 5 : 4); std::vector<double> w(n);
    for (double& x : w) { x = mc::pick(integer ? IVAL : VAL); }
    vectors(w, integer);
}
MC_SCENARIO(vectors_long, 3) { bool integer = mc::flag(); int n = mc::pick({5, 16, 17, 255, 256, 1000, 1024, 4096, 5000, 8192, 16384, 65536}); auto w = integer ? iramp(n, n) : ramp(n, n); if (!integer) { for (double& x : w) { x /= 7; } } vectors(w, integer); }
MC_SCENARIO(patterns, 7)
{
    int r = mc::choose(4), c = mc::choose(4); if (r * c > 9) { mc::prune(); }
    bool integer = mc::flag(); M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (mc::flag()) { int k = i * c + j; m.set(i, j, integer ? (k % 2 ? -1 : 1) * (k * 37 + 5) : (k + 1) / 7.0 * (k % 2 ? -1e-9 : 1)); } }
    both(m, mc::choose(3), integer);
}
MC_SCENARIO(symmetric_patterns, 7)
{
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3); M m(n, n); bool integer = mc::flag();
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { if (mc::flag()) { double v = integer ? i * 5 - j * 7 + 1 : (i * 5 + j + 1) / 3.0; m.set(i, j, v); m.set(j, i, v); } }
    both(m, mc::choose(3), integer);
}
MC_SCENARIO(values, 6)
{
    int r = 1 + mc::choose(2), c = 1 + mc::choose(2); bool integer = mc::flag();
    if (r * c == 4 && !mc::thorough()) { mc::prune(); }
    M m(r, c); std::vector<double> al = integer ? IVAL : VAL; if (r * c == 4) { al.resize(6); }
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int k = mc::choose((int)al.size() + 1); if (k) { m.set(i, j, al[k - 1]); } }
    both(m, 0, integer);
}
MC_SCENARIO(families, 4)
{
    std::vector<int> S = mc::thorough() ? std::vector<int>{1, 2, 9, 10, 11, 64, 99, 101, 300} : std::vector<int>{1, 9, 11, 101};
    int f = mc::choose(NFAM), r = mc::pick(S), c = mc::pick(S); bool integer = mc::flag();
    M m = family(f, r, c, 2); if (!integer) { for (double& x : m.a) { x = x / 3 + (x != 0 ? 1e-10 : 0); } }
    both(m, mc::choose(3), integer);
}
// indices with many digits
MC_SCENARIO(large_indices, 3)
{
    int j = mc::pick({99999, 999999, 1000000, 1234567}), k = mc::choose(3); double v = mc::pick({1.0, -0.1, 1e6, 1e7 + 1});
    std::vector<E> e = {{0, 0, v}, {0, j, 2.5}}; if (k == 1) { e.push_back({1, j, -v}); } if (k == 2) { e.push_back({1, j / 10, 1}); e.push_back({2, j, v}); }
    int r = bounding(e).first; std::vector<int> ip(r + 1, 0), ix; std::vector<double> d; for (auto& x : e) { ip[x.i + 1]++; ix.push_back(x.j); d.push_back(x.v); } for (int i = 0; i < r; ++i) { ip[i + 1] += ip[i]; }
    SparseMatrix<double> s(ip, ix, d, r, j + 1); std::string p = path();
    WriteCooList(s, p); same(ReadCooList(p), r, j + 1, e, "coordinate list");
    WriteMTX(s, p); same(ReadMTX(p), r, j + 1, e, "Matrix Market");
    WriteCSR(s, p); same(ReadCSR(p), r, j + 1, e, "CSR");
    WriteTable(s, p); same(ReadTable(p), r, j + 1, ones(e), "table");
    WriteAdjList(s, p); same(ReadAdjList(p), r, j + 1, ones(e), "adjacency list");
    mc::state(mc::Hash().u(j).u(k).d(v)); MC_STEP("column ", j, " variant ", k);
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    int shape = mc::choose(huge::SHAPES), order = mc::choose(2), sym = mc::choose(2); auto h = huge::make(shape, 1);
    if (sym) { huge::H g(std::max(h.r, h.c), std::max(h.r, h.c)); for (auto& x : h.e) { g.e[x.first] = x.second; g.e[{x.first.second, x.first.first}] = x.second; } h = g; }
    std::vector<E> e; for (auto& x : h.e) { e.push_back({x.first.first, x.first.second, x.second}); } auto bb = bounding(e); int last = 0; for (auto& x : e) { last = std::max(last, x.j + 1); }
    auto s = huge::sparse(h, order); std::string p = path(); mc::state(mc::Hash().u(h.hash()).u(order).u(sym));
    WriteCSR(s, p); same(ReadCSR(p), h.r, h.c, e, "CSR");
    WriteMTX(s, p); same(ReadMTX(p), h.r, h.c, e, "Matrix Market");
    WriteTable(s, p); same(ReadTable(p), h.r, last, ones(e), "table");
    for (int y = 0; y <= sym; ++y)
    {
        WriteCooList(s, p, y); same(ReadCooList(p, y), bb.first, bb.second, e, "coordinate list");
        WriteAdjList(s, p, y); same(ReadAdjList(p, y), bb.first, bb.second, ones(e), "adjacency list");
    }
    MC_STEP(h.r, "x", h.c, " order ", order, " symmetric ", sym);
}
// every sequence of writes to the same two files: the last write is what is read
MC_SCENARIO(overwrite, 3)
{
    int depth = mc::thorough() ? 4 : 3; std::vector<M> ms = {family(2, 3, 3), family(0, 2, 4), family(7, 2, 2), family(2, 1, 1)};
    int last[2] = {-1, -1}; int fmt[2] = {0, 0};
    for (int s = 0; s < depth; ++s)
    {
        int f = mc::choose(2), k = mc::choose(4), t = mc::choose(3);
        auto sp = sparse(ms[k]); std::string p = path(f ? "g" : "f");
        if (t == 0) { WriteCSR(sp, p); } else if (t == 1) { WriteMTX(sp, p); } else { WriteBinary(sp, p); }
        last[f] = k; fmt[f] = t;
        for (int g = 0; g < 2; ++g) if (last[g] >= 0) { const M& m = ms[last[g]]; std::string q = path(g ? "g" : "f"); auto x = fmt[g] == 0 ? ReadCSR(q) : fmt[g] == 1 ? ReadMTX(q) : ReadBinaryMat(q); same(x, m.r, m.c, entries(m), "file written last"); }
        mc::state(mc::Hash().u(last[0]).u(last[1]).u(fmt[0]).u(fmt[1])); MC_STEP("write ", k, " as ", t, " to ", f);
    }
}

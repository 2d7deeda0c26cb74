// C17: binary files round-trip bit for bit; a file cut short at any byte is rejected.
#include "huge.hpp"
#include "io.hpp"
using namespace io;
namespace
{
std::vector<double> special() { return {0.0, -0.0, 1, -1.0 / 3, 5e-324, 1.7976931348623157e308, std::numeric_limits<double>::infinity(), -nan(), 1e16 + 2}; }
template <typename T> bool same_bits(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(T))); }
template <typename T> std::string raw(const std::vector<T>& v) { return std::string((const char*)v.data(), v.size() * sizeof(T)); }
std::string head(std::initializer_list<size_t> h) { return raw(std::vector<size_t>(h)); }
template <typename F> void cut(const std::string& p, const std::string& full, bool all, F read)
{
    size_t n = full.size();
    for (size_t k = 0; k < n; ++k)
    {
        if (!all && k > 40 && k + 40 < n && k % std::max<size_t>(97, n / 60)) { continue; }
        put(p, full.substr(0, k)); std::string what;
        auto s = mc::guarded([&] { read(); }, &what);
        MC_CHECK(s == mc::Stop::exception, "a file of ", n, " bytes cut after ", k, s == mc::Stop::none ? " was read without an error" : " stopped the reader with an assertion: " + what);
        mc::step();
    }
    put(p, full); read();
}
template <typename T> void vector_case(const std::vector<T>& v, bool all)
{
    std::string p = path(); if (v.size() % 2) { put(p, std::string(300, 'x')); }
    WriteBinary(v, p);
    std::string f = get(p);
    MC_CHECK(f == head({v.size()}) + raw(v), "vector of ", v.size(), " entries: the file is not its size followed by its entries");
    auto r = ReadBinaryVect<T>(p);
    MC_CHECK(same_bits(r, v), "vector of ", v.size(), " entries is read back differently");
    cut(p, f, all, [&] { auto x = ReadBinaryVect<T>(p); (void)x; });
}
template <typename T> void matrix_case(const SparseMatrix<T>& m, bool all)
{
    std::string p = path(); put(p, std::string(500, 'y'));
    WriteBinary(m, p);
    std::string f = get(p);
    MC_CHECK(f == head({(size_t)m.Rows(), (size_t)m.Cols(), (size_t)m.nnz()}) + raw(m.GetIndptr()) + raw(m.GetIndices()) + raw(m.GetData()), "the file is not rows, columns, entries, row pointer, indices, data");
    auto check = [&](const SparseMatrix<T>& r) { MC_CHECK(r.Rows() == m.Rows() && r.Cols() == m.Cols() && same_bits(r.GetIndptr(), m.GetIndptr()) && same_bits(r.GetIndices(), m.GetIndices()) && same_bits(r.GetData(), m.GetData()), "matrix is read back differently: ", r.Rows(), "x", r.Cols(), " ", r.GetIndptr(), " ", r.GetIndices()); };
    check(ReadBinaryMat<T>(p));
    cut(p, f, all, [&] { auto r = ReadBinaryMat<T>(p); check(r); });
}
}
MC_SCENARIO(vectors, 3)
{
    bool integer = mc::flag(); int n = mc::choose(4); auto al = special(); std::vector<double> w;
    if (integer) { std::vector<int> v; for (int i = 0; i < n; ++i) { v.push_back(mc::pick({0, -1, 2147483647, -2147483647 - 1, 256})); } mc::state(mc::Hash().u(1).c(v)); vector_case(v, true); MC_STEP("ints ", v); return; }
    for (int i = 0; i < n; ++i) { w.push_back(al[mc::choose(n == 3 && !mc::thorough() ? 4 : (int)al.size())]); }
    mc::Hash h; for (double x : w) { uint64_t b; memcpy(&b, &x, 8); h.u(b); } mc::state(h.u(n));
    vector_case(w, true); MC_STEP("reals ", w);
}
MC_SCENARIO(patterns, 6)
{
    int r = mc::choose(4), c = mc::choose(4); if (r * c > (mc::thorough() ? 9 : 6)) { mc::prune(); }
    bool integer = mc::flag(); M m = choose_pattern(r, c, integer ? 2 : 1.0 / 3); int order = mc::choose(3);
    mc::state(mc::Hash().u(m.hash()).u(order).u(integer));
    if (integer) { matrix_case(sparse<int>(m, order), true); } else { matrix_case(sparse(m, order), true); }
    MC_STEP(m.str(), " order ", order);
}
MC_SCENARIO(special_values, 4)
{
    auto al = special(); int n = 1 + mc::choose(2); std::vector<double> d; std::vector<int> ix; for (int i = 0; i < n; ++i) { d.push_back(al[mc::choose((int)al.size())]); ix.push_back(i); }
    int shape = mc::choose(2); SparseMatrix<double> m(shape ? std::vector<int>{0, n} : std::vector<int>{0, 0, n, n}, ix, d, shape ? 1 : 3, n + shape);
    mc::Hash h; for (double x : d) { uint64_t b; memcpy(&b, &x, 8); h.u(b); } mc::state(h.u(shape));
    matrix_case(m, true); MC_STEP("values ", d);
}
MC_SCENARIO(families, 3)
{
    std::vector<int> S = {1, 5, 33, 130}; int f = mc::choose(NFAM), r = mc::pick(S), c = mc::pick(S); bool integer = mc::flag();
    M m = family(f, r, c, 4); mc::state(mc::Hash().u(m.hash()).u(integer));
    if (integer) { matrix_case(sparse<int>(m), false); } else { matrix_case(sparse(m, 1), false); }
    MC_STEP(FAM[f], " ", r, "x", c);
}
MC_SCENARIO(long_vectors, 2)
{
    int n = mc::pick({255, 256, 1023, 1024, 1025, 4096, 5000, 8192, 16383, 16384, 32768, 65535, 65536, 131072}); bool integer = mc::flag(); mc::state(mc::Hash().u(n).u(integer));
    auto w = ramp(n, 1); if (integer) { std::vector<int> v(w.begin(), w.end()); vector_case(v, false); } else { vector_case(w, false); } MC_STEP("length ", n);
}
MC_SCENARIO(long_matrices, 2)
{
    int n = mc::pick({1024, 4096, 8192, 16384, 32768, 65536}), kind = mc::choose(3);
    std::vector<int> ip(1, 0), ix; std::vector<double> d; int r = kind == 0 ? n : kind == 1 ? 1 : n - 1, c = kind == 0 ? n : n + kind;
    for (int k = 0; k < n; ++k) { ix.push_back(kind == 1 ? n - 1 - k : k); d.push_back(k / 7.0); }
    for (int i = 0; i < r; ++i) { ip.push_back(kind == 1 ? n : kind == 0 ? i + 1 : i + 1 < r ? i : n); }
    SparseMatrix<double> s(ip, ix, d, r, c); mc::state(mc::Hash().u(n).u(kind)); matrix_case(s, false); MC_STEP("entries ", n, " kind ", kind);
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 2)
{
    int shape = mc::choose(huge::SHAPES), order = mc::choose(2); auto h = huge::make(shape, 1); mc::state(mc::Hash().u(h.hash()).u(order));
    if (mc::flag()) { matrix_case(huge::sparse<int>(h, order), false); } else { matrix_case(huge::sparse(h, order), false); }
    MC_STEP(h.r, "x", h.c, " order ", order);
}
MC_SCENARIO(empty_and_missing, 1)
{
    SparseMatrix<double> e; matrix_case(e, true); SparseMatrix<double> z(0, 4), y(3, 0), x(2, 2); matrix_case(z, true); matrix_case(y, true); matrix_case(x, true); vector_case(std::vector<double>(), true); vector_case(std::vector<int>(), true);
    unlink(path("nothere").c_str());
    MC_CHECK(mc::guarded([] { ReadBinaryMat(path("nothere")); }) == mc::Stop::exception && mc::guarded([] { ReadBinaryVect(path("nothere")); }) == mc::Stop::exception, "a missing file is not reported");
    mc::state(1); MC_STEP("empty");
}

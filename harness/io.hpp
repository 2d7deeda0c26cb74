// Shared by C16-C19: files in the worker's scratch directory and an independent reader of the documented formats.
#ifndef IO_HPP
#define IO_HPP
#include "lin.hpp"
#include "parser.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace io
{
using namespace lin;
inline std::string path(const std::string& n = "f") { return mc::scratch() + "/" + n; }
inline void put(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { mc::fail("cannot write scratch file " + p); } close(fd); }
inline std::string get(const std::string& p) { std::string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) { mc::fail("file was not written: " + p); } char b[65536]; for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;) { s.append(b, k); } close(fd); return s; }
// the independent reading of a file: lines of blank-separated words
inline std::vector<std::vector<std::string>> words(const std::string& s)
{
    std::vector<std::vector<std::string>> r; std::vector<std::string> l; std::string w;
    for (char c : s + (s.empty() || s.back() == '\n' ? "" : "\n"))
    {
        if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { if (!w.empty()) { l.push_back(w); w.clear(); } if (c == '\n') { r.push_back(l); l.clear(); } }
        else { w += c; }
    }
    return r;
}
inline double num(const std::string& s) { char* e; double v = strtod(s.c_str(), &e); if (*e || s.empty()) { mc::fail("'" + s + "' in the file is not a number"); } return v; }
inline int whole(const std::string& s) { char* e; long v = strtol(s.c_str(), &e, 10); if (*e || s.empty()) { mc::fail("'" + s + "' in the file is not an integer"); } return (int)v; }
// 16 significant digits
inline bool close16(double a, double b) { if (a == b) { return true; } return std::fabs(a - b) <= std::fabs(b) * 5.0001e-16 + 5e-324; }
template <typename T> bool same_value(T got, double want) { return std::is_integral<T>::value ? (double)got == want : close16((double)got, want); }

struct E { int i, j; double v; };
template <typename T> std::vector<E> entries(const SparseMatrix<T>& s)
{
    std::vector<E> r; for (int i = 0; i < s.Rows(); ++i) for (int k = s.GetIndptr()[i]; k < s.GetIndptr()[i + 1]; ++k) { r.push_back({i, s.GetIndices()[k], (double)s.GetData()[k]}); }
    return r;
}
inline void sort(std::vector<E>& e) { std::sort(e.begin(), e.end(), [](const E & a, const E & b) { return a.i != b.i ? a.i < b.i : a.j < b.j; }); }
inline std::string str(const std::vector<E>& e) { std::string s; for (auto& x : e) { s += mc::S("(", x.i, ",", x.j, ":", x.v, ")"); } return s; }
// same shape and same stored entries (in any order); integral values exactly, reals to 16 digits
template <typename T> void same(const SparseMatrix<T>& s, int r, int c, std::vector<E> want, const std::string& what)
{
    MC_CHECK(s.Rows() == r && s.Cols() == c, what, ": shape ", s.Rows(), "x", s.Cols(), " expected ", r, "x", c);
    const auto& ip = s.GetIndptr();
    MC_CHECK((int)ip.size() == r + 1 && ip[0] == 0 && ip[r] == (int)s.GetIndices().size() && s.GetIndices().size() == s.GetData().size(), what, ": row pointer");
    for (int i = 0; i < r; ++i) { MC_CHECK(ip[i] <= ip[i + 1], what, ": row pointer"); }
    auto got = entries(s); sort(got); sort(want);
    bool ok = got.size() == want.size();
    for (size_t k = 0; ok && k < got.size(); ++k) { ok = got[k].i == want[k].i && got[k].j == want[k].j && got[k].j < c && same_value<T>((T)got[k].v, want[k].v); }
    if (!ok) { mc::fail(mc::S(what, ": entries are ", str(got), ", expected ", str(want))); }
}
inline std::vector<E> entries(const M& m) { std::vector<E> r; for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { r.push_back({i, j, m(i, j)}); } } return r; }
inline std::pair<int, int> bounding(const std::vector<E>& e) { int r = 1, c = 1; for (auto& x : e) { r = std::max(r, x.i + 1); c = std::max(c, x.j + 1); } return {r, c}; }
}
#endif

// C29: a reader whose storage fails at any byte, or whose file holds something other than a number, ends inside an entry
// or has fewer entries than it declares, reports it; however the storage splits the data, the object is the same.
#include "lin.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace lin;
// ---- the storage: reads of one file are split and fail where the explorer says
namespace { volatile bool watch; long fail_at, delivered; int chunk; dev_t wdev; ino_t wino; volatile long refused; }
#include <sys/stat.h>
static bool watched(int fd) { struct stat s; return watch && fstat(fd, &s) == 0 && s.st_dev == wdev && s.st_ino == wino; }
static ssize_t fed(int fd, void* buf, size_t n)
{
    if (fail_at >= 0 && delivered >= fail_at) { refused = 1; errno = EIO; return -1; }
    if (chunk > 0) { n = std::min<size_t>(n, chunk); }
    if (fail_at >= 0) { n = std::min<size_t>(n, fail_at - delivered); }
    ssize_t r = syscall(SYS_read, fd, buf, n); if (r > 0) { delivered += r; } return r;
}
extern "C" __attribute__((visibility("default"))) ssize_t read(int fd, void* buf, size_t n) { return watched(fd) && n ? fed(fd, buf, n) : syscall(SYS_read, fd, buf, n); }
extern "C" __attribute__((visibility("default"))) ssize_t readv(int fd, const struct iovec* v, int k)
{
    if (!watched(fd)) { return syscall(SYS_readv, fd, v, k); }
    ssize_t total = 0;
    for (int i = 0; i < k; ++i) { ssize_t r = v[i].iov_len ? fed(fd, v[i].iov_base, v[i].iov_len) : 0; if (r < 0) { return total ? total : r; } total += r; if ((size_t)r < v[i].iov_len) { break; } }
    return total;
}
namespace
{
struct Got { bool failed; uint64_t h; std::string why; };
template <typename T> uint64_t hash_of(const SparseMatrix<T>& s)
{ mc::Hash h; h.u(s.Rows()).u(s.Cols()); DenseMatrix d = s.ToDense(); h.u(s.nnz()); for (int i = 0; i < d.Rows(); ++i) for (int j = 0; j < d.Cols(); ++j) { h.d(d(i, j)); } return h; }
template <typename T> uint64_t hash_of(const std::vector<T>& v) { mc::Hash h; h.u(v.size()); for (T x : v) { h.d((double)x); } return h; }
const char* NAMES[] = {"ReadText<double>", "ReadText<int>", "ReadBinaryVect", "ReadBinaryMat", "ReadAdjList", "ReadAdjList(symmetric)", "ReadGraphList", "ReadCooList", "ReadCooList(symmetric)", "ReadTable", "ReadCSR", "ReadMTX", "ReadMTXList", "ReadCSR<int>", "ReadCooList<int>", "ReadMTX<int>", "ReadBinaryVect<int>"};
const int NREAD = 17;
uint64_t read_as(int k, const std::string& f)
{
    switch (k)
    {
    case 0: return hash_of(ReadText(f)); case 1: return hash_of(ReadText<int>(f)); case 2: return hash_of(ReadBinaryVect(f)); case 3: return hash_of(ReadBinaryMat(f));
    case 4: return hash_of(ReadAdjList(f)); case 5: return hash_of(ReadAdjList(f, true)); case 6: return hash_of(ReadGraphList(f)); case 7: return hash_of(ReadCooList(f));
    case 8: return hash_of(ReadCooList(f, true)); case 9: return hash_of(ReadTable(f)); case 10: return hash_of(ReadCSR(f)); case 11: return hash_of(ReadMTX(f));
    case 12: return hash_of(ReadMTXList(f)); case 13: return hash_of(ReadCSR<int>(f)); case 14: return hash_of(ReadCooList<int>(f)); case 15: return hash_of(ReadMTX<int>(f)); default: return hash_of(ReadBinaryVect<int>(f));
    }
}
bool integer_values(int k) { return k == 1 || k >= 13; }
bool binary(int k) { return k == 2 || k == 3 || k == 16; }
Got attempt(int k, const std::string& f)
{
    Got g{false, 0, ""};
    mc::Stop s = mc::guarded([&] { g.h = read_as(k, f); }, &g.why);
    g.failed = s != mc::Stop::none; return g;
}
std::string path() { return mc::scratch() + "/f"; }
void put(const std::string& text) { std::ofstream o(path().c_str(), std::ios::binary); o << text; }
template <typename T> void raw(std::string& s, T v) { s.append((const char*)&v, sizeof(v)); }
// the tokens of a text file, with what separates them
struct Text { std::vector<std::string> head, tok; std::vector<std::string> sep; };
std::string join(const Text& t) { std::string s; for (auto& h : t.head) { s += h + "\n"; } for (size_t i = 0; i < t.tok.size(); ++i) { s += t.tok[i] + t.sep[i]; } return s; }
std::string num(int k, double v) { std::ostringstream o; if (integer_values(k)) { o << (int)(4 * v); } else { o.precision(16); o << v; } return o.str(); }
// file of reader k for the matrix m (vectors: its stored cells)
Text text_of(int k, const M& m)
{
    Text t; auto add = [&](const std::string& a, const char* s) { t.tok.push_back(a); t.sep.push_back(s); };
    auto str = [](long v) { return std::to_string(v); };
    bool sym = k == 5 || k == 8;
    if (k <= 1) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { add(num(k, m(i, j)), "\n"); } } }
    else if (k == 4 || k == 5 || k == 6) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j) && (k == 4 || i < j || (sym && i == j))) { add(str(i), " "); add(str(j), "\n"); } } }
    else if (k == 7 || k == 8 || k == 14) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j) && (!sym || i <= j)) { add(str(i), " "); add(str(j), " "); add(num(k, m(i, j)), "\n"); } } }
    else if (k == 9) { for (int i = 0; i < m.r; ++i) { int last = -1; for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { add(str(j), " "); last = (int)t.tok.size() - 1; } } if (last >= 0) { t.sep[last] = "\n"; } else if (t.sep.size()) { t.sep.back() += "\n"; } else { t.head.push_back(""); } } }
    else if (k == 10 || k == 13)
    {
        add(str(m.r), "\n"); add(str(m.c), "\n"); int n = 0; add("0", "\n");
        for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { n += m.s(i, j); } add(str(n), "\n"); }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { add(str(j), "\n"); } }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { add(num(k, m(i, j)), "\n"); } }
    }
    else
    {
        t.head.push_back(k == 12 ? "%%MatrixMarket matrix coordinate pattern general" : k == 15 ? "%%MatrixMarket matrix coordinate integer general" : "%%MatrixMarket matrix coordinate real general"); t.head.push_back("% comment");
        add(str(m.r), " "); add(str(m.c), " "); add(str(m.nnz()), "\n");
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { add(str(i + 1), " "); add(str(j + 1), k == 12 ? "\n" : " "); if (k != 12) { add(num(k, m(i, j)), "\n"); } } }
    }
    return t;
}
std::string binary_of(int k, const M& m)
{
    std::string s;
    if (k == 3)
    {
        raw<size_t>(s, m.r); raw<size_t>(s, m.c); raw<size_t>(s, m.nnz()); int n = 0; raw<int>(s, 0);
        for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { n += m.s(i, j); } raw<int>(s, n); }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { raw<int>(s, j); } }
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { raw<double>(s, m(i, j)); } }
    }
    else { raw<size_t>(s, m.nnz()); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { if (k == 16) { raw<int>(s, (int)(4 * m(i, j))); } else { raw<double>(s, m(i, j)); } } } }
    return s;
}
M object(int o)
{
    auto f = [&](int r, int c, int gap) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if ((i + j) % gap == 0 || (i == r - 1 && j == c - 1)) { m.set(i, j, ((i * 7 + j * 3) % 11 - 5) / 4.0 + 3); } } return m; };
    switch (o) { case 0: return f(1, 1, 1); case 1: return f(2, 2, 1); case 2: return f(3, 3, 2); case 3: { M m = f(4, 3, 3); m.s(1, 0) = m.s(1, 1) = m.s(1, 2) = 0; for (int j = 0; j < 3; ++j) { m(1, j) = 0; } return m; } case 4: return f(2, 5, 1); default: return f(o == 5 ? 30 : 70, o == 5 ? 33 : 70, o == 5 ? 1 : 2); }
}
std::string file_of(int k, int o) { M m = object(o); return binary(k) ? binary_of(k, m) : join(text_of(k, m)); }
void select() { struct stat s; stat(path().c_str(), &s); wdev = s.st_dev; wino = s.st_ino; }
Got faulty(int k, long at, int split) { select(); fail_at = at; delivered = 0; chunk = split; refused = 0; watch = true; Got g = attempt(k, path()); watch = false; return g; }
}
MC_SCENARIO(storage_fails, 2)
{
    int k = mc::choose(NREAD), o = mc::choose(mc::thorough() ? 7 : 6); std::string text = file_of(k, o); put(text);
    Got whole = attempt(k, path()); MC_CHECK(!whole.failed, NAMES[k], " of a well-formed file failed: ", whole.why);
    long n = text.size(), at; int split = 0;
    if (n <= 400) { at = mc::choose(n + 1); split = mc::pick({0, 1, 3}); }
    else { std::vector<long> p; for (long a : {0L, 1L, n - 1, n, n / 2, n / 3}) { p.push_back(a); } for (long b : {512L, 1024L, 4096L, 8191L, 8192L, 16382L, 16384L}) { for (int d = -1; d <= 1; ++d) { if (b + d < n) { p.push_back(b + d); } } } for (long a = 0; a < n; a += n / 40 + 1) { p.push_back(a); } at = mc::pick(p); split = mc::pick({0, 1000}); }
    Got g = faulty(k, at, split);
    std::string what = mc::S(NAMES[k], " of a file of ", n, " bytes whose storage fails after ", at, split ? mc::S(" (read in pieces of ", split, ")") : "");
    MC_CHECK(g.failed || g.h == whole.h, what, " returned an object made from the part it could read");
    if (!g.failed) { MC_CHECK(!refused || at >= n, what, " returned normally although a read failed"); }
    mc::state(mc::Hash().u(k).u(o).u(at).u(split)); MC_STEP(what, g.failed ? ": reported (" + g.why + ")" : ": not needed");
}
MC_SCENARIO(split_reads, 2)
{
    int k = mc::choose(NREAD), o = mc::choose(7); std::string text = file_of(k, o); put(text); Got whole = attempt(k, path()); int split = mc::pick({1, 2, 3, 7, 100, 4096, 8190});
    if (text.size() > 3000 && split < 7) { mc::prune(); }
    Got g = faulty(k, -1, split); MC_CHECK(!g.failed && g.h == whole.h, NAMES[k], " of ", text.size(), " bytes delivered in pieces of ", split, g.failed ? " failed: " : " gives another object ", g.why);
    mc::state(mc::Hash().u(k).u(o).u(split).u(7)); MC_STEP(NAMES[k], " in pieces of ", split);
}
// a file cut at a token boundary (formats that say how much they hold), or inside an entry (all formats)
MC_SCENARIO(cut_entries, 2)
{
    int k = mc::choose(NREAD); if (binary(k)) { mc::prune(); } int o = mc::choose(5); Text t = text_of(k, object(o)); int n = t.tok.size(); if (!n) { mc::prune(); }
    int keep = mc::choose(n); bool lf = mc::flag(); bool counted = k >= 10 && k != 14; int rec = k == 14 ? 3 : k <= 1 || k == 9 ? 1 : k <= 6 ? 2 : 3;
    if (!counted && keep % rec == 0) { mc::prune(); }                     // a shorter but complete file
    t.tok.resize(keep); t.sep.resize(keep); if (keep) { t.sep.back() = lf ? "\n" : ""; } put(join(t));
    Got g = attempt(k, path()); MC_CHECK(g.failed, NAMES[k], " of a file that ends after ", keep, " of its ", n, " numbers returned an object");
    mc::state(mc::Hash().u(k).u(o).u(keep).u(lf).u(3)); MC_STEP(NAMES[k], " ended after ", keep, " of ", n, ": ", g.why);
}
// something that is not a number in place of any number, or between any two
MC_SCENARIO(not_a_number, 2)
{
    int k = mc::choose(NREAD); if (binary(k)) { mc::prune(); } int o = mc::choose(5); Text t = text_of(k, object(o)); int n = t.tok.size(); if (!n) { mc::prune(); }
    int at = mc::choose(n); std::string junk = mc::pick(std::vector<std::string>{"x", "-", "#", "3x", "--1", "one"}); bool insert = mc::flag();
    if (insert) { t.tok.insert(t.tok.begin() + at, junk); t.sep.insert(t.sep.begin() + at, " "); } else { t.tok[at] = junk; }
    if ((k == 10 || k == 13) && at == n - 1 && junk == "3x") { mc::prune(); }   // text after the last number of the format
    put(join(t)); Got g = attempt(k, path());
    MC_CHECK(g.failed, NAMES[k], " of a file with '", junk, insert ? "' before" : "' in place of", " number ", at, " of ", n, " returned an object");
    mc::state(mc::Hash().u(k).u(o).u(at).s(junk).u(insert)); MC_STEP(NAMES[k], " '", junk, "' at ", at, ": ", g.why);
}

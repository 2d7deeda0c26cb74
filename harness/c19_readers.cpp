// C19: every well-formed file of a bounded grammar is read as what it describes.  The file text is generated from the
// object (never written by the library), so reader errors that a matching writer would hide are visible.
#include "huge.hpp"
#include "io.hpp"
using namespace io;
namespace
{
// ---- layout of the text ----------------------------------------------------------------------------------------
struct Style { int sep = 0, lead = 0, trail = 0, eol = 0, final = 0, blank = 0, num = 0; };
const char* SEP[] = {" ", "\t", "   ", " \t "};
const char* EOL[] = {"\n", "\r\n"};
// final: 0 newline at the end, 1 none, 2 extra empty lines (where a line means nothing)
// blank: 0 none, 1 before the first, 2 between all, 3 lines of blanks only
Style choose_style(bool lines_matter)
{
    Style s; s.sep = mc::choose(4); s.lead = mc::choose(2); s.trail = mc::choose(2); s.eol = mc::choose(2);
    s.final = mc::choose(lines_matter ? 2 : 3); s.blank = lines_matter ? 0 : mc::choose(4); return s;
}
typedef std::vector<std::string> Line;
std::string render(const std::vector<Line>& ls, const Style& s)
{
    std::string o, eol = EOL[s.eol];
    if (s.blank == 1) { o += eol + eol; }
    for (size_t i = 0; i < ls.size(); ++i)
    {
        if (i && s.blank >= 2) { o += (s.blank == 3 ? std::string(" \t ") : "") + eol; }
        if (!ls[i].empty() && s.lead) { o += s.lead == 1 ? " " : "\t"; }
        for (size_t k = 0; k < ls[i].size(); ++k) { o += (k ? SEP[s.sep] : "") + ls[i][k]; }
        if (!ls[i].empty() && s.trail) { o += " "; }
        if (i + 1 < ls.size() || s.final != 1 || ls[i].empty()) { o += eol; }
    }
    if (s.final == 2) { o += eol + " " + eol; }
    return o;
}
std::string spell(double v, int how, bool integer)
{
    char b[64];
    if (integer) { snprintf(b, sizeof b, how == 1 ? "%+.0f" : "%.0f", v); return b; }
    switch (how)
    {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%+.17g", v); break;
    case 2: snprintf(b, sizeof b, "%.17e", v); break;
    case 3: snprintf(b, sizeof b, "%.17E", v); break;
    default: snprintf(b, sizeof b, v == std::floor(v) && std::fabs(v) < 1e6 ? "%.1f" : "%.17g", v);
    }
    return b;
}
std::string I(int i) { return std::to_string(i); }
// ---- what the file means ----------------------------------------------------------------------------------------
std::vector<E> sum(const std::vector<E>& e)
{
    std::vector<E> r; for (auto& x : e) { bool f = false; for (auto& y : r) { if (y.i == x.i && y.j == x.j) { y.v += x.v; f = true; } } if (!f) { r.push_back(x); } }
    return r;
}
std::vector<E> mirror(const std::vector<E>& e, double sign = 1) { std::vector<E> r; for (auto& x : e) { r.push_back(x); if (x.i != x.j) { r.push_back({x.j, x.i, sign * x.v}); } } return r; }
// values, ignoring which zeros are stored
template <typename T> void means(const SparseMatrix<T>& s, int r, int c, std::vector<E> want, const std::string& what) { same(s, r, c, sum(want), what); }
std::string show(const std::string& s) { std::string o; for (char c : s) { o += c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : std::string(1, c); } return o.size() > 300 ? o.substr(0, 300) + "..." : o; }
template <typename F> void run(const std::string& text, const std::string& what, F read)
{
    std::string p = path(); put(p, text); MC_TRACE(what, " of \"", show(text), "\"");
    std::string why; auto s = mc::guarded([&] { read(p); }, &why);
    MC_CHECK(s == mc::Stop::none, what, " of \"", show(text), "\" was stopped: ", why); mc::step();
}
// ---- the readers -------------------------------------------------------------------------------------------------
enum { TEXT, TABLE, COO, COOSYM, ADJ, ADJSYM, GRAPH, CSR, MTX, MTXLIST, NFMT };
const char* FMT[] = {"ReadText", "ReadTable", "ReadCooList", "ReadCooList(symmetric)", "ReadAdjList", "ReadAdjList(symmetric)", "ReadGraphList", "ReadCSR", "ReadMTX", "ReadMTXList"};
struct Header { int sym = 0; int form = 0; int comments = 0; };       // sym: 0 general 1 symmetric 2 skew-symmetric
std::string banner(const Header& h, const char* field)
{
    std::string s = h.sym == 0 ? "general" : h.sym == 1 ? "symmetric" : "skew-symmetric", m = "MatrixMarket", mat = "matrix", c = "coordinate", f = field;
    std::string lead = "%%", sep = " ";
    switch (h.form)
    {
    case 1: for (auto* x : {&s, &f, &c, &mat}) { for (char& ch : *x) { ch = (char)toupper(ch); } } break;
    case 2: for (auto* x : {&s, &f, &c, &mat}) { (*x)[0] = (char)toupper((*x)[0]); } break;
    case 3: sep = "  "; break;
    }
    return lead + m + sep + mat + sep + c + sep + f + sep + s;
}
const std::vector<std::vector<std::string>> COMMENTS =
{
    {}, {"%"}, {"% a comment"}, {"% not symmetric at all"}, {"% symmetric", "% general"}, {"%%", "% 3 3 4", "%"}, {"% skew-symmetric or Hermitian?"}, {"%general"}, {"% converted for MatrixMarket, not symmetric"}
};
struct File { int fmt; bool integer; std::vector<E> e; int r, c; Header h; };     // e in file order
std::vector<Line> lines_of(const File& f, int num)
{
    std::vector<Line> l;
    switch (f.fmt)
    {
    case TEXT: for (auto& x : f.e) { l.push_back({spell(x.v, num, f.integer)}); } break;
    case TABLE: l.resize(f.r); for (auto& x : f.e) { l[x.i].push_back(I(x.j)); } break;
    case COO: case COOSYM: for (auto& x : f.e) { l.push_back({I(x.i), I(x.j), spell(x.v, num, f.integer)}); } break;
    case ADJ: case ADJSYM: case GRAPH: for (auto& x : f.e) { l.push_back({I(x.i), I(x.j)}); } break;
    case CSR:
    {
        auto e = f.e; std::stable_sort(e.begin(), e.end(), [](const E & a, const E & b) { return a.i < b.i; });
        l.push_back({I(f.r)}); l.push_back({I(f.c)}); size_t k = 0; l.push_back({"0"});
        for (int i = 0; i < f.r; ++i) { while (k < e.size() && e[k].i == i) { ++k; } l.push_back({I((int)k)}); }
        for (auto& x : e) { l.push_back({I(x.j)}); } for (auto& x : e) { l.push_back({spell(x.v, num, f.integer)}); } break;
    }
    case MTX: case MTXLIST:
        l.push_back({I(f.r), I(f.c), I((int)f.e.size())});
        for (auto& x : f.e) { Line q = {I(x.i + 1), I(x.j + 1)}; if (f.fmt == MTX) { q.push_back(spell(x.v, num, f.integer)); } l.push_back(q); }
        break;
    }
    return l;
}
template <typename T> void check(const File& f, const Style& s)
{
    auto ls = lines_of(f, s.num); std::string text = render(ls, s);
    if (f.fmt == MTX || f.fmt == MTXLIST)
    {
        std::string head = banner(f.h, f.fmt == MTXLIST ? "pattern" : f.integer ? "integer" : "real") + EOL[s.eol];
        for (auto& c : COMMENTS[f.h.comments]) { head += c + EOL[s.eol]; }
        text = head + text;
    }
    auto ones = f.e; for (auto& x : ones) { x.v = 1; }
    run(text, FMT[f.fmt], [&](const std::string & p)
    {
        const char* w = FMT[f.fmt];
        switch (f.fmt)
        {
        case TEXT:
        {
            auto v = ReadText<T>(p); MC_CHECK(v.size() == f.e.size(), w, ": ", v.size(), " entries of ", f.e.size());
            for (size_t k = 0; k < v.size(); ++k) { MC_CHECK((double)v[k] == f.e[k].v, w, ": entry ", k, " is ", (double)v[k], ", the file says ", f.e[k].v); } break;
        }
        case TABLE: { int c = 0; for (auto& x : f.e) { c = std::max(c, x.j + 1); } means(ReadTable<T>(p), f.r, c, ones, w); break; }
        case COO: { auto b = bounding(f.e); means(ReadCooList<T>(p), b.first, b.second, f.e, w); break; }
        case COOSYM: { auto e = mirror(f.e); auto b = bounding(e); means(ReadCooList<T>(p, true), b.first, b.second, e, w); break; }
        case ADJ: { auto b = bounding(f.e); means(ReadAdjList<T>(p), b.first, b.second, ones, w); break; }
        case ADJSYM: { auto e = mirror(ones); auto b = bounding(e); means(ReadAdjList<T>(p, true), b.first, b.second, e, w); break; }
        case GRAPH:
        {
            std::vector<E> e; for (auto& x : f.e) { if (x.i < x.j) { e.push_back({x.i, x.j, -1}); e.push_back({x.j, x.i, -1}); e.push_back({x.i, x.i, 1}); e.push_back({x.j, x.j, 1}); } }
            auto b = bounding(e); means(ReadGraphList<T>(p), b.first, b.second, e, w); break;
        }
        case CSR: means(ReadCSR<T>(p), f.r, f.c, f.e, w); break;
        case MTX: means(ReadMTX<T>(p), f.r, f.c, f.h.sym == 0 ? f.e : mirror(f.e, f.h.sym == 1 ? 1 : -1), w); break;
        case MTXLIST: means(ReadMTXList<T>(p), f.r, f.c, f.h.sym == 0 ? ones : mirror(ones), w); break;
        }
    });
}
void go(const File& f, const Style& s)
{
    mc::Hash h; h.u(f.fmt).u(f.integer).u(f.r).u(f.c).u(f.h.sym).u(f.h.form).u(f.h.comments); for (auto& x : f.e) { h.u(x.i).u(x.j).d(x.v); }
    mc::state(h); if (f.integer) { check<int>(f, s); } else { check<double>(f, s); }
}
double value(int k, bool integer) { static const double r[] = {0.1, -2.5, 1e-7, 3, -1e21, 0.0078125, 5e-300, 7.25}; static const double n[] = {3, -2, 1000000, 7, -19, 2147483647, 5, 1}; return (integer ? n : r)[k % 8]; }
// which positions a format may list
bool listed(const File& f, int i, int j)
{
    if (f.fmt == COOSYM || f.fmt == ADJSYM || ((f.fmt == MTX || f.fmt == MTXLIST) && f.h.sym == 1)) { return i >= j; }
    if (f.fmt == MTX && f.h.sym == 2) { return i > j; }
    if (f.fmt == GRAPH) { return i < j; }
    return true;
}
bool square(const File& f) { return f.fmt == COOSYM || f.fmt == ADJSYM || f.fmt == GRAPH || f.h.sym; }
File choose_file()
{
    File f; f.fmt = mc::choose(NFMT); f.integer = f.fmt == TABLE || f.fmt == GRAPH || f.fmt == ADJ || f.fmt == ADJSYM || f.fmt == MTXLIST ? false : mc::flag(); f.r = f.c = 0;
    if (f.fmt == MTX) { f.h.sym = mc::choose(3); } if (f.fmt == MTXLIST) { f.h.sym = mc::choose(2); }
    return f;
}
}
// every layout of a few contents
MC_SCENARIO(layouts, 6)
{
    File f = choose_file(); int kind = mc::choose(4);
    // 0: full 2x2 (as far as listed), 1: sparse 3x4 / 4x4 with empty rows, 2: one entry, 3: nothing
    f.r = kind == 0 ? 2 : kind == 1 ? 4 : 1 + (kind == 2); f.c = square(f) ? f.r : kind == 1 ? 3 : kind == 2 ? 3 : 2;
    int k = 0; for (int i = f.r - 1; i >= 0; --i) for (int j = 0; j < f.c; ++j) if (listed(f, i, j)) { bool on = kind == 0 || (kind == 1 && (i * 2 + j) % 3 == 1 && i != 2) || (kind == 2 && i == f.r - 1 && j == 0) || (kind == 2 && f.fmt == GRAPH && j == 1); if (on) { f.e.push_back({i, j, value(k++, f.integer)}); } }
    Style s = choose_style(f.fmt == TABLE);
    if (f.fmt == TEXT || f.fmt == COO || f.fmt == COOSYM || f.fmt == CSR || f.fmt == MTX) { s.num = mc::choose(f.integer ? 2 : 5); }
    go(f, s);
}
// every sequence of listed entries (order and, where it means a sum, repetition)
MC_SCENARIO(entry_sequences, 6)
{
    File f = choose_file(); if (f.fmt == TEXT) { mc::prune(); }
    int dim = mc::thorough() ? 4 : 3; f.r = f.fmt == TABLE || f.fmt == CSR || f.fmt == MTX || f.fmt == MTXLIST ? 1 + mc::choose(dim) : dim; f.c = square(f) ? f.r : f.fmt == CSR || f.fmt == MTX || f.fmt == MTXLIST ? 1 + mc::choose(dim) : dim;
    int n = mc::choose(4); bool rep = f.fmt == COO || f.fmt == COOSYM; std::vector<std::pair<int, int>> pos;
    for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) if (listed(f, i, j)) { pos.push_back({i, j}); }
    for (int k = 0; k < n; ++k)
    {
        if (pos.empty()) { mc::prune(); } int q = mc::choose((int)pos.size()); auto p = pos[q];
        if (!rep) { pos.erase(pos.begin() + q); }
        f.e.push_back({p.first, p.second, f.integer ? value(k, true) : (k + 1) * (k % 2 ? -0.5 : 0.25)});
    }
    if (f.fmt == COOSYM || f.fmt == ADJSYM) { if (mc::flag()) { for (auto& x : f.e) { std::swap(x.i, x.j); } } }      // or the upper triangle
    if (f.fmt == GRAPH) { int both = mc::choose(3); if (both) { std::vector<E> g; for (auto& x : f.e) { if (both == 1) { g.push_back({x.j, x.i, 0}); g.push_back(x); } else { g.push_back(x); } } if (both == 2) { for (auto& x : f.e) { g.push_back({x.j, x.i, 0}); } g.push_back({0, 0, 0}); } f.e = g; } }
    go(f, Style());
}
// every Matrix Market header x comments x blank lines, for both readers
MC_SCENARIO(headers, 5)
{
    File f; f.fmt = mc::flag() ? MTX : MTXLIST; f.integer = f.fmt == MTX && mc::flag(); f.h.sym = mc::choose(f.fmt == MTX ? 3 : 2); f.h.form = mc::choose(4); f.h.comments = mc::choose((int)COMMENTS.size());
    f.r = 3; f.c = f.h.sym ? 3 : 2 + mc::choose(2); int some = mc::choose(3); int k = 0;
    for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) if (listed(f, i, j) && (some == 0 || (i + j + some) % 2)) { f.e.push_back({i, j, value(k++, f.integer)}); }
    Style s; s.eol = mc::choose(2); s.blank = mc::choose(4); s.final = mc::choose(3); s.lead = mc::choose(2); s.trail = mc::choose(2);
    go(f, s);
}
// every numeral spelling in every value position
MC_SCENARIO(numerals, 4)
{
    int fmt = mc::pick({(int)TEXT, (int)COO, (int)MTX, (int)CSR, (int)COOSYM}); bool integer = mc::flag(); File f; f.fmt = fmt; f.integer = integer; f.r = 2; f.c = 2;
    std::vector<double> al = integer ? std::vector<double>{0, -1, 2147483647, -2147483648.0, 10} : std::vector<double>{0, -1, 0.1, 1e300, -2.2250738585072014e-308, 123456789.25, 1e-9, 9007199254740993.0};
    double a = mc::pick(al), b = mc::pick(al); f.e = {{0, 0, a}, {1, 0, b}, {1, 1, 2}};
    Style s; s.num = mc::choose(integer ? 2 : 5); s.sep = mc::choose(4); s.eol = mc::choose(2); go(f, s);
}
// larger structured files in every entry order
MC_SCENARIO(families, 5)
{
    File f = choose_file(); int fam = mc::choose(NFAM); f.r = mc::pick({2, 11, 40}); f.c = square(f) ? f.r : mc::pick({1, 12, 35}); M m = family(fam, f.r, f.c, 2);
    int k = 0; for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) if (m.s(i, j) && listed(f, i, j)) { f.e.push_back({i, j, f.integer ? m(i, j) : m(i, j) * 0.3 + k++ * 1e-3}); }
    int order = mc::choose(4); size_t n = f.e.size(); std::vector<E> g;
    for (size_t q = 0; q < n; ++q) { g.push_back(order == 0 ? f.e[q] : order == 1 ? f.e[n - 1 - q] : order == 2 ? f.e[q % 2 ? n - 1 - q / 2 : q / 2] : E()); }
    if (order == 3) { g = f.e; std::stable_sort(g.begin(), g.end(), [](const E & a, const E & b) { return a.j < b.j; }); }
    f.e = g; Style s; s.eol = mc::choose(2); s.final = mc::choose(f.fmt == TABLE ? 2 : 3); go(f, s);
}
// numbers and indices of many digits, long lines and long files
MC_SCENARIO(long_files, 3)
{
    File f; f.fmt = mc::choose(NFMT); f.integer = false; int n = mc::pick({1023, 4096, 20000}); f.r = 1; f.c = n;
    if (square(f)) { f.r = n; } if (f.fmt == MTX || f.fmt == MTXLIST) { f.h.sym = 0; }
    for (int k = 0; k < n - 1; k += 1 + (k % 3)) { f.e.push_back(f.fmt == GRAPH ? E{k, k + 1, 1} : f.fmt == COOSYM || f.fmt == ADJSYM ? E{k + 1, k, 1.0 + k} : E{0, k, 1.0 / (k + 3)}); }
    f.e.back().j = f.fmt == GRAPH ? n - 1 : f.e.back().j; mc::state(mc::Hash().u(f.fmt).u(n));
    auto ls = lines_of(f, 0); std::string p = path(); put(p, ((f.fmt == MTX) ? banner(f.h, "real") + "\n" : f.fmt == MTXLIST ? banner(f.h, "pattern") + "\n" : "") + render(ls, Style()));
    auto total = [&](const SparseMatrix<double>& s, size_t nnz, double want) { MC_CHECK(s.GetIndptr().back() == (int)nnz && (size_t)s.nnz() == nnz, FMT[f.fmt], ": ", s.nnz(), " entries, expected ", nnz); double t = 0; for (int i = 0; i < s.Rows(); ++i) for (int k = s.GetIndptr()[i]; k < s.GetIndptr()[i + 1]; ++k) { t += s.GetData()[k] * (1 + s.GetIndices()[k] % 7) * (1 + i % 5); } MC_CHECK(std::fabs(t - want) <= 1e-9 * (1 + std::fabs(want)), FMT[f.fmt], ": weighted sum ", t, " expected ", want); };
    auto wsum = [&](const std::vector<E>& e) { double t = 0; for (auto& x : e) { t += x.v * (1 + x.j % 7) * (1 + x.i % 5); } return t; };
    auto one = f.e; for (auto& x : one) { x.v = 1; }
    auto mir = [&](const std::vector<E>& e) { return mirror(e); };
    switch (f.fmt)
    {
    case TEXT: { auto v = ReadText(p); MC_CHECK(v.size() == f.e.size(), "ReadText: size"); for (size_t k = 0; k < v.size(); ++k) { MC_CHECK(v[k] == f.e[k].v, "ReadText: entry ", k); } break; }
    case TABLE: total(ReadTable<double>(p), one.size(), wsum(one)); break;
    case COO: total(ReadCooList(p), f.e.size(), wsum(f.e)); break;
    case COOSYM: total(ReadCooList(p, true), 2 * f.e.size(), wsum(mir(f.e))); break;
    case ADJ: total(ReadAdjList(p), one.size(), wsum(one)); break;
    case ADJSYM: total(ReadAdjList(p, true), 2 * one.size(), wsum(mir(one))); break;
    case GRAPH: { auto s = ReadGraphList(p); double t = 0; for (int i = 0; i < s.Rows(); ++i) { double r = 0; for (int k = s.GetIndptr()[i]; k < s.GetIndptr()[i + 1]; ++k) { r += s.GetData()[k]; if (s.GetIndices()[k] == i) { t += s.GetData()[k]; } else { MC_CHECK(s.GetData()[k] == -1, "ReadGraphList: off-diagonal entry"); } } MC_CHECK(r == 0, "ReadGraphList: row ", i, " sums to ", r); } MC_CHECK(t == 2.0 * f.e.size(), "ReadGraphList: trace"); break; }
    case CSR: total(ReadCSR(p), f.e.size(), wsum(f.e)); break;
    case MTX: total(ReadMTX(p), f.e.size(), wsum(f.e)); break;
    case MTXLIST: total(ReadMTXList(p), one.size(), wsum(one)); break;
    }
    MC_STEP(FMT[f.fmt], " of ", f.e.size(), " entries");
}
// shapes with more cells than an int can count
MC_SCENARIO(huge_shapes, 3)
{
    File f; f.fmt = mc::choose(NFMT); f.integer = false; int shape = mc::choose(huge::SHAPES), order = mc::choose(3), sym = 0; if (f.fmt == TEXT) { mc::prune(); }
    auto h = huge::make(shape, 1); f.r = h.r; f.c = h.c; bool lower = f.fmt == COOSYM || f.fmt == ADJSYM || f.fmt == GRAPH;
    if (f.fmt == MTX || f.fmt == MTXLIST) { sym = mc::choose(3); lower = sym; } f.h.sym = sym; if (sym) { f.r = f.c = std::max(h.r, h.c); }
    std::map<std::pair<int, int>, double> m; for (auto& x : h.e) { auto k = x.first; if (lower && k.first == k.second) { if (f.fmt == GRAPH || sym == 2) { continue; } } if (lower && k.first < k.second) { std::swap(k.first, k.second); } if (f.fmt == GRAPH) { std::swap(k.first, k.second); } m[k] = x.second; }
    for (auto& x : m) { f.e.push_back({x.first.first, x.first.second, x.second}); }
    if (order == 1) { std::reverse(f.e.begin(), f.e.end()); } if (order == 2) { std::vector<E> o; size_t n = f.e.size(), s = 7; while (n % s == 0) { ++s; } for (size_t k = 0; k < n; ++k) { o.push_back(f.e[k * s % n]); } f.e = o; }
    mc::state(mc::Hash().u(f.fmt).u(shape).u(order).u(sym)); if (mc::flag()) { f.integer = true; check<int>(f, Style()); } else { check<double>(f, Style()); }
    MC_STEP(FMT[f.fmt], " of ", f.r, "x", f.c, " order ", order);
}
// a missing file is an error for every reader, also after successful and failed reads of others
MC_SCENARIO(missing, 3)
{
    std::string have = path("have"), no = path(mc::flag() ? "none" : "no/such/file"); put(have, "0 0 1\n0 0 1\n"); unlink(path("none").c_str());
    int depth = 2;
    for (int s = 0; s < depth; ++s)
    {
        int f = mc::choose(13); bool miss = mc::flag(); std::string p = miss ? no : have;
        std::string what; auto st = mc::guarded([&]
        {
            switch (f)
            {
            case 0: ReadText(p); break; case 1: ReadText<int>(p); break; case 2: ReadTable(p); break; case 3: ReadCooList(p); break; case 4: ReadCooList(p, true); break; case 5: ReadAdjList(p); break; case 6: ReadAdjList(p, true); break; case 7: ReadGraphList(p); break;
            case 8: if (miss) { ReadCSR(p); } break; case 9: if (miss) { ReadMTX(p); } break; case 10: if (miss) { ReadMTXList(p); } break; case 11: if (miss) { ReadBinaryVect(p); } break; default: if (miss) { ReadBinaryMat(p); }
            }
        }, &what);
        MC_CHECK(miss ? st == mc::Stop::exception : st == mc::Stop::none, "reader ", f, miss ? ": a missing file is not reported" : ": stopped by " + what);
        mc::state(mc::Hash().u(f).u(miss)); MC_STEP("reader ", f, miss ? " missing" : " present");
    }
}

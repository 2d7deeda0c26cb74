// C35: files, command lines and printing do not depend on the global locale of the program: whatever decimal point, grouping
// of digits and names for true and false it has set, at whichever of its steps.
#include "io.hpp"
#include "argparser.hpp"
#include "blockmatrix.hpp"
#include "lilmatrix.hpp"
#include <locale>
using namespace io;
namespace
{
struct Punct : std::numpunct<char>
{
    char dot, sep; std::string group, yes, no; Punct(char d, char s, const std::string& g, const std::string& y, const std::string& n) : dot(d), sep(s), group(g), yes(y), no(n) {}
    char do_decimal_point() const override { return dot; } char do_thousands_sep() const override { return sep; } std::string do_grouping() const override { return group; } std::string do_truename() const override { return yes; } std::string do_falsename() const override { return no; }
};
const int NLOC = 5;
const char* LOC[] = {"classic", "1.234,5", "1,234.5", "1 2 3;5", "1234,5"};
const std::locale& loc(int k)
{
    static const std::locale c = std::locale::classic(), all[NLOC] = {c, std::locale(c, new Punct(',', '.', "\3", "wahr", "falsch")), std::locale(c, new Punct('.', ',', "\3", "yes", "no")), std::locale(c, new Punct(';', ' ', "\1", "1", "0")), std::locale(c, new Punct(',', ',', "", "vrai", "faux"))}; return all[k];
}
// the global locale while the library is called; messages of the checks are made outside
struct Under { std::locale was; int k; explicit Under(int l) : was(std::locale::global(loc(l))), k(l) {} ~Under() { bool kept = std::locale() == loc(k); std::locale::global(was); if (!kept && !std::uncaught_exceptions()) { mc::fail("the global locale was changed"); } } };
template <typename F> auto under(int l, F f) -> decltype(f()) { Under u(l); return f(); }
struct Out { bool failed; uint64_t h; };
template <typename T> uint64_t digest(const SparseMatrix<T>& s) { return mc::Hash().u(s.Rows()).u(s.Cols()).c(s.GetIndptr()).c(s.GetIndices()).c(s.GetData()); }
template <typename T> uint64_t digest(const std::vector<T>& v) { return mc::Hash().c(v); }
const int NFORM = 16;
const char* NAME[] = {"text", "integer text", "binary vector", "binary matrix", "adjacency list", "symmetric adjacency list", "coordinate list", "symmetric coordinate list", "table", "CSR", "integer CSR", "Matrix Market", "integer coordinate list", "graph list", "matrix list", "integer matrix market"};
Out read_form(int f, const std::string& p)
{
    try
    {
        switch (f)
        {
        case 0: return {false, digest(ReadText(p))}; case 1: return {false, digest(ReadText<int>(p))}; case 2: return {false, digest(ReadBinaryVect(p))}; case 3: return {false, digest(ReadBinaryMat(p))}; case 4: return {false, digest(ReadAdjList(p))}; case 5: return {false, digest(ReadAdjList(p, true))};
        case 6: return {false, digest(ReadCooList(p))}; case 7: return {false, digest(ReadCooList(p, true))}; case 8: return {false, digest(ReadTable(p))}; case 9: return {false, digest(ReadCSR(p))}; case 10: return {false, digest(ReadCSR<int>(p))}; case 11: return {false, digest(ReadMTX(p))};
        case 12: return {false, digest(ReadCooList<int>(p))}; case 13: return {false, digest(ReadGraphList(p))}; case 14: return {false, digest(ReadMTXList(p))}; default: return {false, digest(ReadMTX<int>(p))};
        }
    }
    catch (const std::exception&) { return {true, 0}; }
}
const int NOBJ = 6;
struct Obj { int r, c; std::vector<E> e; };
const Obj& object(int k)
{
    static const std::vector<Obj> o = {{0, 0, {}}, {2, 2, {{0, 0, 1.5}, {0, 1, -2}, {1, 0, -2}}}, {1500, 1500, {{0, 0, 1234567.875}, {0, 1234, -1000}, {1234, 0, -1000}, {1499, 1499, 1e22}}}, {3, 3, {{0, 2, 0.001}, {1, 1, 1e-9}, {2, 0, 0.001}}}, {12, 12, {{10, 11, 10000}, {11, 10, 10000}, {11, 11, 123456}}}, {1, 1, {{0, 0, -999.25}}}}; return o[k];
}
template <typename T> SparseMatrix<T> made(const Obj& o) { CooMatrix<T> c(o.r, o.c); for (auto& e : o.e) { T v = (T)(std::is_integral<T>::value ? std::max(-1e9, std::min(1e9, e.v)) : e.v); c.Add(e.i, e.j, v); } return c.ToSparse(); }
void write_form(int f, const Obj& o, const std::string& p)
{
    std::vector<double> v; std::vector<int> w; for (auto& e : o.e) { v.push_back(e.v); w.push_back((int)std::max(-1e9, std::min(1e9, e.v))); }
    switch (f)
    {
    case 0: WriteText(v, p); break; case 1: WriteText(w, p); break; case 2: WriteBinary(v, p); break; case 3: WriteBinary(made<double>(o), p); break; case 4: WriteAdjList(made<double>(o), p); break; case 5: WriteAdjList(made<double>(o), p, true); break;
    case 6: WriteCooList(made<double>(o), p); break; case 7: WriteCooList(made<double>(o), p, true); break; case 8: WriteTable(made<double>(o), p); break; case 9: WriteCSR(made<double>(o), p); break; case 10: WriteCSR(made<int>(o), p); break; case 11: WriteMTX(made<double>(o), p); break;
    case 12: WriteCooList(made<int>(o), p); break; case 13: { std::string s; for (auto& e : o.e) { if (e.i < e.j) { s += std::to_string(e.i) + " " + std::to_string(e.j) + "\n"; } } put(p, s); break; }
    case 14: { std::string s = "%%MatrixMarket matrix coordinate pattern general\n" + std::to_string(o.r) + " " + std::to_string(o.c) + " " + std::to_string(o.e.size()) + "\n"; for (auto& e : o.e) { s += std::to_string(e.i + 1) + " " + std::to_string(e.j + 1) + "\n"; } put(p, s); break; }
    default: WriteMTX(made<int>(o), p);
    }
}
// written under one locale, read under another
void file_trip(int f, int ob, int lw, int lr)
{
    const Obj& o = object(ob); std::string p = path("l"), what = mc::S(NAME[f], ", object ", ob, ", written under ", LOC[lw], ", read under ", LOC[lr]);
    write_form(f, o, p); std::string want = get(p); Out expect = read_form(f, p); unlink(p.c_str());
    under(lw, [&] { write_form(f, o, p); }); std::string text = get(p); MC_CHECK(text == want, what, ": the file is '", text.substr(0, 80), "', in the classic locale '", want.substr(0, 80), "'");
    Out got = under(lr, [&] { return read_form(f, p); }); MC_CHECK(got.failed == expect.failed && got.h == expect.h, what, got.failed ? ": cannot be read" : ": reads as something else"); unlink(p.c_str());
    mc::state(mc::Hash().u(f).u(ob).u(lw).u(lr)); MC_STEP(what);
}
struct Seen { bool good; int n; double x; size_t z; bool b; std::string s, errors, options, help; };
Seen parse(const std::vector<std::string>& line, int made_under, int parse_under, int show_under)
{
    std::vector<const char*> argv = {"program"}; for (auto& a : line) { argv.push_back(a.c_str()); } Seen r; r.n = 1234567; r.x = 1234567.25; r.z = 10000; r.b = false; r.s = "1,000.5"; std::ostringstream e, o, h;
    auto p = under(made_under, [&] { return ArgParser((int)argv.size(), const_cast<char**>(argv.data())); });
    under(parse_under, [&] { p.Parse(r.n, "--n", "count"); p.Parse(r.x, "--x", "real"); p.Parse(r.z, "--z", "size"); p.Parse(r.b, "--b", "switch"); p.Parse(r.s, "--s", "text"); });
    under(show_under, [&] { r.good = p.IsGood(); p.ShowErrors(e); p.ShowOptions(o); p.ShowHelp(h); }); r.errors = e.str(); r.options = o.str(); r.help = h.str(); return r;
}
std::vector<std::string> VALUES = {"2.5", "2,5", "1000", "1.000", "1,000", "1e3", "-1234567", "1 000", "0;5", "12345678", ".5", ",5", "true", "5"};
void command_line(const std::vector<std::string>& line, int a, int b, int c)
{
    Seen want = parse(line, 0, 0, 0), got = parse(line, a, b, c); std::string what = mc::S("command line"); for (auto& t : line) { what += " '" + t + "'"; } what += mc::S(" under ", LOC[a], "/", LOC[b], "/", LOC[c]);
    MC_CHECK(want.good == got.good && want.errors == got.errors, what, ": reports '", got.errors, "' instead of '", want.errors, "'");
    MC_CHECK(want.n == got.n && want.x == got.x && want.z == got.z && want.b == got.b && want.s == got.s, what, ": values ", got.n, " ", got.x, " ", got.z, " ", got.b, " ", got.s, " instead of ", want.n, " ", want.x, " ", want.z, " ", want.b, " ", want.s);
    MC_CHECK(want.options == got.options, what, ": shows '", got.options, "' instead of '", want.options, "'"); MC_CHECK(want.help == got.help, what, ": another help text"); MC_STEP(what);
}
const int NPRINT = 10;
void print_form(int k, const Obj& o, std::ostream& s)
{
    auto dense = [&] { DenseMatrix d(std::min(o.r, 40), std::min(o.c, 40)); d = 0.0; for (auto& e : o.e) { d(e.i % 40, e.j % 40) = e.v; } return d; };
    Vector<double> v((int)o.e.size()); for (size_t i = 0; i < o.e.size(); ++i) { v[(int)i] = o.e[i].v; }
    switch (k)
    {
    case 0: made<double>(o).Print("m", s); break; case 1: made<int>(o).Print("m", s); break; case 2: dense().Print("d", s); break; case 3: v.Print("v", s); break; case 4: s << v; break; case 5: { CooMatrix<double> c(o.r, o.c); for (auto& e : o.e) { c.Add(e.i, e.j, e.v); } c.Print("c", s); break; }
    case 6: { LilMatrix<double> l(o.r, o.c); for (auto& e : o.e) { l.Add(e.i, e.j, e.v); } l.Print("l", s); break; } case 7: { BlockMatrix<double> b({0, o.r}, {0, o.c}); b.SetBlock(0, 0, made<double>(o)); b.Print("b", s); break; }
    case 8: { std::vector<int> w; for (auto& e : o.e) { w.push_back(1000 * e.i + e.j); } s << w; break; } default: if (o.r < 100) { made<double>(o).PrintDense("p", s); } else { dense().Print("d", s, 12, 1); }
    }
}
void print_trip(int k, int ob, int global, int stream)
{
    std::ostringstream a, b; a.imbue(loc(stream)); b.imbue(loc(stream)); print_form(k, object(ob), a); under(global, [&] { print_form(k, object(ob), b); });
    MC_CHECK(a.str() == b.str(), "printing object ", ob, " as ", k, " to a stream of ", LOC[stream], " under ", LOC[global], " gives '", b.str().substr(0, 120), "' instead of '", a.str().substr(0, 120), "'"); MC_CHECK(b.getloc() == loc(stream), "printing changes the locale of the stream");
    mc::state(mc::Hash().u(100 + k).u(ob).u(global).u(stream)); MC_STEP("print ", k, " object ", ob, " under ", LOC[global], " to ", LOC[stream]);
}
}
MC_SCENARIO(files, 3) { int f = mc::choose(NFORM), o = mc::choose(NOBJ), w = mc::choose(NLOC), r = mc::choose(NLOC); file_trip(f, o, w, r); }
// what is not a number in the format stays none, whatever the locale
MC_SCENARIO(foreign_numbers, 3)
{
    int f = mc::pick({0, 1, 6, 9, 11, 4, 8, 12, 14}), l = 1 + mc::choose(NLOC - 1); std::string v = mc::pick(std::vector<std::string>{"1,5", "1.234,5", "1,234.5", "1.234", "1,234", "1;5", "1.000.000", "1,000,000"}); std::string p = path("l"), s;
    switch (f)
    {
    case 0: case 1: s = "1\n" + v + "\n2\n"; break; case 6: case 12: s = "0 0 1\n0 1 " + v + "\n"; break; case 9: s = "2\n2\n0\n1\n2\n0\n1\n1\n" + v + "\n"; break; case 11: s = "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 2 " + v + "\n"; break; case 4: case 8: s = "0 " + v + "\n"; break; default: s = "%%MatrixMarket matrix coordinate pattern general\n2 2 1\n1 " + v + "\n";
    }
    if (f == 11 && mc::flag()) { s = "%%MatrixMarket matrix coordinate real general\n2000 2000 1\n" + (mc::flag() ? "1 " + v : v + " 1") + " 1\n"; }
    put(p, s); Out want = read_form(f, p), got = under(l, [&] { return read_form(f, p); }); MC_CHECK(want.failed == got.failed && want.h == got.h, NAME[f], " with '", v, "' ", got.failed ? "cannot be read" : "is read differently", " under ", LOC[l]); unlink(p.c_str()); mc::state(mc::Hash().u(f).u(l).s(s)); MC_STEP(NAME[f], " with ", v, " under ", LOC[l]);
}
MC_SCENARIO(command_lines, 3)
{
    std::string flag = mc::pick(std::vector<std::string>{"--n", "--x", "--z", "--b", "--s", "--unknown"}), v = mc::pick(VALUES); int form = mc::choose(3), l = mc::choose(NLOC), which = mc::choose(4); std::vector<std::string> line = {flag, v}; if (form == 1) { line = {"--x", "1234.5", "--n", "-1000", flag, v}; } if (form == 2) { line = {flag}; }
    command_line(line, which == 0 || which == 3 ? l : 0, which == 1 || which == 3 ? l : 0, which == 2 || which == 3 ? l : 0); mc::state(mc::Hash().s(flag).s(v).u(form).u(l).u(which));
}
MC_SCENARIO(printing, 3) { int k = mc::choose(NPRINT), o = mc::choose(NOBJ), g = mc::choose(NLOC), s = mc::choose(NLOC); print_trip(k, o, g, s); }
// the program switches its locale between its steps
MC_SCENARIO(histories, 3)
{
    int g = 0; mc::Hash h; int n = mc::thorough() ? 6 : 5;
    for (int i = 0; i < n; ++i)
    {
        int op = mc::choose(8); h.u(op);
        if (op < 3) { int to = op == 0 ? 0 : op; if (to == g) { mc::prune(); } g = to; }
        else if (op == 3) { file_trip(0, 2, g, g); } else if (op == 4) { file_trip(11, 2, g, 0); } else if (op == 5) { file_trip(9, 4, 0, g); } else if (op == 6) { command_line({"--x", "1234.5", "--n", "1000"}, g, g, g); } else { print_trip(2 + g, 4, g, 0); }
        mc::state(mc::Hash(h).u(g));
    }
}

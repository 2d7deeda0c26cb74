// C33: printed objects show every entry, at its place, with its value; to the stream asked for and without changing anything.
#include "lin.hpp"
#include <algorithm>
#include <iomanip>
#include <iostream>
#include <memory>
using namespace linalgcpp; using namespace lin;
namespace
{
// the states a stream may be in
const int NSTATE = 6;
void prepare(std::ostream& o, int s)
{
    switch (s)
    {
    case 1: o.precision(17); break;
    case 2: o << std::fixed; o.precision(3); break;
    case 3: o << std::scientific; o.precision(9); break;
    case 4: o << std::left; o.precision(2); break;
    case 5: o.fill('*'); o.precision(12); break;
    }
}
const std::vector<std::string> LABELS = {"", "A", "two words:", "a rather long label with (1, 2) 3 in it"};
template <typename T> std::string format(T v, int s) { std::ostringstream o; prepare(o, s); o << v; return o.str(); }
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> l; std::istringstream i(t); for (std::string s; std::getline(i, s);) { l.push_back(s); } return l; }
std::vector<std::string> tokens(std::string s) { for (char& c : s) { if (c == '(' || c == ')' || c == ',' || c == '*') { c = ' '; } } std::vector<std::string> t; std::istringstream i(s); for (std::string w; i >> w;) { t.push_back(w); } return t; }
std::string show(const std::string& t) { return t.size() > 400 ? t.substr(0, 400) + "..." : t; }
struct Where { bool console; int state; std::string label; };
Where where() { Where w; w.console = mc::flag(); w.state = mc::choose(NSTATE); w.label = mc::pick(LABELS); return w; }
// what f prints: to the stream given and nowhere else, leaving the stream's format as it was
std::string printed(const Where& w, const std::string& what, const std::function<void(std::ostream*)>& f)
{
    std::ostringstream out, con; std::streambuf* old = std::cout.rdbuf(con.rdbuf()); std::ios keep(nullptr); keep.copyfmt(std::cout);
    std::ostream& o = w.console ? std::cout : out; prepare(o, w.state); auto flags = o.flags(); auto prec = o.precision(); auto fill = o.fill();
    try { f(w.console ? nullptr : &out); } catch (...) { std::cout.rdbuf(old); std::cout.copyfmt(keep); throw; }
    bool same = o.flags() == flags && o.precision() == prec && o.fill() == fill && o.width() == 0 && o.good(); std::string text = w.console ? con.str() : out.str(), other = w.console ? out.str() : con.str();
    std::cout.rdbuf(old); std::cout.copyfmt(keep); std::cout.clear();
    MC_CHECK(same, what, ": the stream is left in another format");
    MC_CHECK(other.empty(), what, ": printed on the console instead of the stream given: ", show(other));
    return text;
}
// label line, then blank lines are free
std::vector<std::string> body(const std::string& text, const std::string& label, const std::string& what)
{
    auto l = lines(text); MC_CHECK(!l.empty() && l[0] == label, what, ": the label is not the first line of ", show(text));
    std::vector<std::string> b; for (size_t i = 1; i < l.size(); ++i) { if (!tokens(l[i]).empty()) { b.push_back(l[i]); } }
    MC_CHECK(!text.empty() && text.back() == '\n', what, ": the last line is not finished");
    return b;
}
using E = std::vector<std::string>;
void same_lines(std::vector<E> got, std::vector<E> want, bool sorted, const std::string& what, const std::string& text)
{
    if (!sorted) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    MC_CHECK(got == want, what, ": ", want.size(), " lines expected, printed are ", got.size(), ": ", show(text));
}
template <typename T> std::vector<E> entries(const M& m, int state) { std::vector<E> e; for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { if (m.s(i, j)) { e.push_back({std::to_string(i), std::to_string(j), format((T)m(i, j), state)}); } } return e; }
std::vector<E> split(const std::vector<std::string>& b) { std::vector<E> e; for (auto& l : b) { e.push_back(tokens(l)); } return e; }
std::vector<E> table(const M& m, int precision) { std::vector<E> e; for (int i = 0; i < m.r; ++i) { E row; for (int j = 0; j < m.c; ++j) { std::ostringstream o; o << std::fixed << std::setprecision(precision) << m(i, j); row.push_back(o.str()); } if (m.c) { e.push_back(row); } } return e; }
const std::vector<double> VALUES = {0.0, 1.0, -1.0, 0.1, -3.25, 1.0 / 3, 123.0, -1234.5678, 99999.5, 1e6, -1e9, 1e17, 1e-7, 12345678.87654321, 5e-300, -2e200};
template <typename T> void print_sparse(const M& m, const Where& w, int kind, int order)
{
    std::string what = mc::S(kind == 0 ? "sparse " : kind == 1 ? "coordinate " : "list ", show(m.str())), text;
    switch (kind)
    {
    case 0: { auto s = sparse<T>(m, order), b = s; text = printed(w, what, [&](std::ostream* o) { o ? s.Print(w.label, *o) : s.Print(w.label); }); MC_CHECK(s.GetIndptr() == b.GetIndptr() && s.GetIndices() == b.GetIndices() && s.GetData() == b.GetData(), what, ": printing changed it"); break; }
    case 1: { CooMatrix<T> s(m.r, m.c); for (int p = 0; p < m.r * m.c; ++p) { int q = order ? m.r * m.c - 1 - p : p; if (m.st[q]) { s.Add(q / m.c, q % m.c, (T)m.a[q]); } } text = printed(w, what, [&](std::ostream* o) { o ? s.Print(w.label, *o) : s.Print(w.label); }); same_sparse(s.ToSparse(), m, what + " afterwards", true); break; }
    default: { LilMatrix<T> s(m.r, m.c); for (int p = 0; p < m.r * m.c; ++p) { int q = order ? m.r * m.c - 1 - p : p; if (m.st[q]) { s.Add(q / m.c, q % m.c, (T)m.a[q]); } } text = printed(w, what, [&](std::ostream* o) { o ? s.Print(w.label, *o) : s.Print(w.label); }); same_sparse(s.ToSparse(), m, what + " afterwards", true); }
    }
    same_lines(split(body(text, w.label, what)), entries<T>(m, w.state), false, what, text);
    mc::state(mc::Hash().u(m.hash()).u(w.state).u(kind).u(order).u(w.console).s(w.label)); MC_STEP("print ", what, ":\n", text);
}
void print_sparse(bool integer, const M& m, const Where& w, int kind, int order) { if (integer) { print_sparse<int>(m, w, kind, order); } else { print_sparse<double>(m, w, kind, order); } }
void print_dense(const M& m, const Where& w, int form, int width, int precision)
{
    std::string what = mc::S(form == 3 ? "sparse as dense " : form == 4 ? "block as dense " : "dense ", show(m.str()), " width ", width, " precision ", precision), text; int p = form == 2 ? precision : 4;
    if (form == 3) { auto s = sparse(m); text = printed(w, what, [&](std::ostream* o) { o ? s.PrintDense(w.label, *o) : s.PrintDense(w.label); }); }
    else if (form == 4)
    {
        std::vector<int> ro = {0, m.r / 2, m.r}, co = {0, m.c / 3, m.c}; BlockMatrix<double> b(ro, co);
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { M s(ro[i + 1] - ro[i], co[j + 1] - co[j]); for (int k = 0; k < s.r; ++k) for (int l = 0; l < s.c; ++l) { if (m.s(ro[i] + k, co[j] + l)) { s.set(k, l, m(ro[i] + k, co[j] + l)); } } b.SetBlock(i, j, sparse(s)); }
        text = printed(w, what, [&](std::ostream* o) { o ? b.PrintDense(w.label, *o) : b.PrintDense(w.label); });
    }
    else { DenseMatrix d = dense(m); text = printed(w, what, [&](std::ostream* o) { if (form == 2) { d.Print(w.label, o ? *o : std::cout, width, precision); } else { o ? d.Print(w.label, *o) : d.Print(w.label); } }); same_dense(d, m, what + " afterwards"); }
    same_lines(split(body(text, w.label, what)), table(m, p), true, what, text);
    mc::state(mc::Hash().u(m.hash()).u(w.state).u(form).u(width).u(precision).u(w.console).s(w.label)); MC_STEP("print ", what, ":\n", text);
}
template <typename T> void print_vector(const std::vector<double>& v, Where w, int form)
{
    std::string what = mc::S("vector of ", v.size(), " form ", form), text; Vector<T> x = vec<T>(v); std::vector<T> sv; for (double d : v) { sv.push_back((T)d); } std::vector<T> room(v.size() + 2, (T)7); VectorView<T> view(room.data() + 1, (int)v.size()); for (size_t i = 0; i < v.size(); ++i) { view[(int)i] = sv[i]; }
    if (form >= 2) { w.label = ""; }
    text = printed(w, what, [&](std::ostream* o)
    {
        std::ostream& s = o ? *o : std::cout;
        switch (form)
        {
        case 0: o ? x.Print(w.label, s) : x.Print(w.label); break;
        case 1: o ? view.Print(w.label, s) : view.Print(w.label); break;
        case 2: s << x; break;
        case 3: s << static_cast<const VectorView<T>&>(view); break;
        default: s << sv;
        }
    });
    std::vector<E> want; for (T t : sv) { want.push_back({format(t, w.state)}); }
    same_lines(split(body(text, w.label, what)), want, true, what, text); same_vec(x, stdv(sv), what);
    mc::Hash h; h.c(v); mc::state(h.u(form).u(w.state).u(w.console).s(w.label).u(sizeof(T))); MC_STEP("print ", what, ":\n", text);
}
}
MC_SCENARIO(sparse_patterns, 5)
{
    int r = mc::choose(4), c = mc::choose(4); if (r * c > 6 && !mc::thorough()) { mc::prune(); } M m = choose_pattern(r, c); int kind = mc::choose(3), order = mc::choose(2); Where w = where(); if (r * c > 4 && (w.state > 2 || w.label.size() > 1)) { mc::prune(); }
    print_sparse(mc::flag(), m, w, kind, order);
}
MC_SCENARIO(dense_patterns, 5)
{
    int r = mc::choose(4), c = mc::choose(4); if (r * c > 6 && !mc::thorough()) { mc::prune(); } M m = choose_pattern(r, c); int form = 1 + mc::choose(4); Where w = where(); if (r * c > 4 && (w.state > 2 || w.label.size() > 1)) { mc::prune(); }
    print_dense(m, w, form, form == 2 ? mc::pick({8, 12, 20, 3, 0}) : 8, form == 2 ? mc::pick({4, 0, 2, 12}) : 4);
}
// every value in every place next to every other value
MC_SCENARIO(values, 4)
{
    int what = mc::choose(3); double a = mc::pick(VALUES), b = mc::pick(VALUES), c = mc::thorough() ? mc::pick(VALUES) : 2.5; int place = mc::choose(3); M m(2, 3); m.set(0, 0, c); m.set(place == 2 ? 1 : 0, place == 0 ? 1 : 2, a); m.set(1, place == 2 ? 0 : 2, b); Where w{mc::flag(), mc::choose(NSTATE), "M"};
    if (what == 0) { print_sparse(false, m, w, mc::choose(3), 0); }
    else if (what == 1) { int form = 1 + mc::choose(4); print_dense(m, w, form, form == 2 ? mc::pick({8, 16, 1}) : 8, form == 2 ? mc::pick({4, 0, 9}) : 4); }
    else { print_vector<double>({c, a, b}, w, mc::choose(5)); }
}
MC_SCENARIO(vectors, 4)
{
    int n = mc::pick({0, 1, 2, 3, 10, 100}), form = mc::choose(5); Where w = where(); if (mc::flag()) { print_vector<int>(iramp(n, 1), w, form); } else { auto v = ramp(n); for (double& d : v) { d *= 1.1; } print_vector<double>(v, w, form); }
}
MC_SCENARIO(families, 3)
{
    int f = mc::choose(NFAM), r = mc::pick({1, 5, 17, 64}), c = mc::pick({1, 7, 40}); M m = family(f, r, c); bool integer = mc::flag(); for (double& x : m.a) { x *= integer ? 10 : 10.5; } Where w{mc::flag(), mc::choose(2), "big"}; int k = mc::choose(5);
    if (k < 3) { print_sparse(integer, m, w, k, mc::choose(2)); } else { print_dense(m, w, 1 + 2 * (k - 3), 8, 4); }
}
MC_SCENARIO(large, 3)
{
    int f = mc::pick({1, 2, 5, 10}), k = mc::choose(5), sh = mc::choose(3); int r = sh == 0 ? 1 : sh == 1 ? 600 : 130, c = sh == 0 ? 1100 : sh == 1 ? 3 : 130; M m = family(f, r, c); for (double& x : m.a) { x *= 10.5; } Where w{mc::flag(), 0, "big"};
    if (k < 3) { print_sparse(false, m, w, k, 1); } else { print_dense(m, w, 1 + 2 * (k - 3), 8, 4); }
}
MC_SCENARIO(long_vectors, 2) { int n = mc::pick({500, 1025, 5000}), form = mc::choose(5); Where w{mc::flag(), 0, "big"}; if (mc::flag()) { print_vector<int>(iramp(n, 1), w, form); } else { auto v = ramp(n); for (double& d : v) { d *= 1.1; } print_vector<double>(v, w, form); } }
// block by block
MC_SCENARIO(blocks, 4)
{
    std::vector<int> sizes = {0, 1, 2}; int nr = 1 + mc::choose(2), nc = 1 + mc::choose(2); std::vector<int> ro(1, 0), co(1, 0); for (int i = 0; i < nr; ++i) { ro.push_back(ro.back() + mc::pick(sizes)); } for (int j = 0; j < nc; ++j) { co.push_back(co.back() + mc::pick(sizes)); }
    BlockMatrix<double> b(ro, co); std::vector<std::pair<std::string, std::vector<E>>> want; Where w{mc::flag(), mc::choose(2), mc::pick(LABELS)};
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j)
        {
            int kind = mc::choose(3); M s(ro[i + 1] - ro[i], co[j + 1] - co[j]); if (kind) { for (int k = 0; k < s.r; ++k) for (int l = 0; l < s.c; ++l) { if (kind == 1 || (k + l) % 2) { s.set(k, l, cell(i * 5 + k, j * 5 + l, 3) * 1.25); } } b.SetBlock(i, j, sparse(s)); }
            auto e = entries<double>(s, w.state); std::sort(e.begin(), e.end()); want.push_back({mc::S("block (", i, ",", j, ")"), e});
        }
    std::string what = "block matrix", text = printed(w, what, [&](std::ostream* o) { o ? b.Print(w.label, *o) : b.Print(w.label); });
    std::vector<std::pair<std::string, std::vector<E>>> got; for (auto& l : body(text, w.label, what)) { if (l.compare(0, 5, "block") == 0) { got.push_back({l, {}}); } else { MC_CHECK(!got.empty(), what, ": an entry before the first block"); got.back().second.push_back(tokens(l)); } } for (auto& g : got) { std::sort(g.second.begin(), g.second.end()); }
    MC_CHECK(got == want, what, ": not every entry of every block is printed under its block: ", show(text));
    mc::state(mc::Hash().s(text).u(w.console).c(ro).c(co)); MC_STEP("print a block matrix:\n", text);
}
// anything may be printed after anything: earlier printing has no influence
MC_SCENARIO(sequences, 3)
{
    std::ostringstream o, fresh[4]; prepare(o, 0); M m = family(3, 3, 4); for (double& x : m.a) { x *= 100.125; } std::string all;
    for (int k = 0; k < (mc::thorough() ? 5 : 4); ++k)
    {
        auto p = [&](std::ostream & s, int i) { switch (i) { case 0: dense(m).Print("d", s); break; case 1: sparse(m).Print("s", s); break; case 2: s << vec(ramp(4)); break; case 3: s << 0.123456789 << "\n"; break; case 4: dense(m).Print("w", s, 20, 12); break; default: sparse(m).PrintDense("x", s); } };
        int i = mc::choose(6); std::ostringstream f; p(f, i); p(o, i); all += f.str(); MC_CHECK(o.str() == all, "printing object kind ", i, " after others gives another text: ", show(o.str())); MC_STEP("print kind ", i);
    }
    mc::state(mc::Hash().s(all));
}

// C20: every command line up to a length over an alphabet of options and values, against a plain model of the documented
// syntax, with every choice and order of registered options.
#include "argparser.hpp"
#include "mc.hpp"
#include <climits>
#include <map>
#include <memory>
#include <set>
using namespace linalgcpp;
namespace
{
enum Kind { BOOL, INT, REAL, STR, SIZE };
struct Opt { const char* name; Kind kind; const char* help; };
const Opt OPT[] = {{"--b", BOOL, "a switch that is on"}, {"--bc", BOOL, "a switch that is off"}, {"--n", INT, "a count"}, {"--x", REAL, "a real number"}, {"--s", STR, "some text"}, {"-k", INT, "short option"}, {"--long-option-name", SIZE, "unsigned"}, {"--quiet", STR, ""}};
const int NOPT = 8;
const std::vector<std::string> TOKEN = {"--b", "--bc", "--n", "--x", "--s", "-k", "--unknown", "--help", "5", "-3", "abc", "2.5", "-1e3", "5x", "two words", "99999999999", "--long-option-name"};
struct Val { bool b; long n; double x; std::string s; };
Val initial(int o) { Val v; v.b = o == 0; v.n = o == 2 ? 7 : o == 5 ? -1 : 42; v.x = 0.125; v.s = o == 4 ? "default text" : "q"; return v; }
// the model: what the line says
struct Given { std::map<std::string, std::vector<std::string>> values; std::set<std::string> twice, stray; bool help = false; };     // values[name] is empty or one value
bool longopt(const std::string& t) { return t.compare(0, 2, "--") == 0; }
Given parse(const std::vector<std::string>& line)
{
    Given g; std::vector<std::string> t;
    for (auto& x : line) { if (x == "--help") { g.help = true; } else { t.push_back(x); } }
    for (size_t i = 0; i < t.size();)
    {
        if (t[i][0] != '-') { g.stray.insert(t[i]); ++i; continue; }
        bool has = i + 1 < t.size() && !longopt(t[i + 1]);
        if (g.values.count(t[i])) { g.twice.insert(t[i]); } else { g.values[t[i]]; if (has) { g.values[t[i]].push_back(t[i + 1]); } }
        i += has ? 2 : 1;
    }
    return g;
}
bool convert(Kind k, const std::string& s, Val& v)
{
    char* e = nullptr; errno = 0;
    switch (k)
    {
    case INT: { long n = strtol(s.c_str(), &e, 10); if (*e || e == s.c_str() || n > INT_MAX || n < INT_MIN) { return false; } v.n = n; return true; }
    case SIZE: { unsigned long n = strtoul(s.c_str(), &e, 10); if (*e || e == s.c_str()) { return false; } v.n = (long)n; return true; }
    case REAL: { double x = strtod(s.c_str(), &e); if (*e || e == s.c_str()) { return false; } v.x = x; return true; }
    default: v.s = s; return true;
    }
}
std::string text(Kind k, const Val& v) { std::ostringstream o; switch (k) { case BOOL: o << (v.b ? "true" : "false"); break; case INT: case SIZE: o << v.n; break; case REAL: o << v.x; break; case STR: o << v.s; } return o.str(); }
void apply(const ArgParser& p, int o, Val& v, bool quiet)
{
    std::string h = OPT[o].help;
    switch (OPT[o].kind)
    {
    case BOOL: p.Parse(v.b, OPT[o].name, h); break;
    case INT: { int n = (int)v.n; if (quiet) { p.Parse(n, OPT[o].name); } else { p.Parse(n, OPT[o].name, h); } v.n = n; break; }
    case SIZE: { size_t n = (size_t)v.n; p.Parse(n, OPT[o].name, h); v.n = (long)n; break; }
    case REAL: p.Parse(v.x, OPT[o].name, h); break;
    case STR: p.Parse(v.s, OPT[o].name, h); break;
    }
}
bool same(Kind k, const Val& a, const Val& b) { return k == BOOL ? a.b == b.b : k == REAL ? a.x == b.x : k == STR ? a.s == b.s : a.n == b.n; }
std::vector<std::string> split_lines(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); for (std::string l; std::getline(i, l);) { r.push_back(l); } return r; }
bool names(const std::string& l, const std::string& o) { size_t k = l.find_first_not_of(" \t"); return k != std::string::npos && l.compare(k, o.size(), o) == 0 && (k + o.size() == l.size() || l[k + o.size()] == ' ' || l[k + o.size()] == '\t' || l[k + o.size()] == ':'); }
std::string join(const std::vector<std::string>& l) { std::string s; for (auto& x : l) { s += (s.empty() ? "" : " ") + (x.find(' ') != std::string::npos ? "'" + x + "'" : x); } return s; }
std::unique_ptr<ArgParser> make(const std::vector<std::string>& line)
{
    std::vector<std::string> copy = line; std::vector<const char*> a; a.push_back("program"); for (auto& s : copy) { a.push_back(s.c_str()); } a.push_back(nullptr);
    std::unique_ptr<ArgParser> p(new ArgParser((int)line.size() + 1, a.data()));
    for (auto& s : copy) { s.assign(s.size(), '#'); }                       // the parser keeps nothing of argv
    return p;
}
void check(const std::vector<std::string>& line, const std::vector<int>& reg, bool copied)
{
    Given g = parse(line); std::string what = "[" + join(line) + "]";
    for (auto& v : g.values) for (int o = 0; o < NOPT; ++o) { if (v.first == OPT[o].name && !v.second.empty() && (OPT[o].kind == BOOL || (OPT[o].kind == SIZE && v.second[0][0] == '-'))) { mc::prune(); } }        // a switch followed by a value, a negative value for an unsigned option: not part of the syntax
    std::string why; auto st = mc::guarded([&]
    {
        auto p = make(line); if (copied) { std::unique_ptr<ArgParser> q(new ArgParser(*p)); p = std::move(q); }
        std::map<int, Val> want; std::map<int, int> times; std::set<std::string> bad(g.twice); bad.insert(g.stray.begin(), g.stray.end());
        for (int o : reg)
        {
            Val v = initial(o), w = v; bool fresh = !times[o]++; std::string n = OPT[o].name;
            if (g.values.count(n))
            {
                auto& gv = g.values[n];
                if (OPT[o].kind == BOOL) { w.b = !w.b; }
                else if (gv.empty() || !convert(OPT[o].kind, gv[0], w)) { bad.insert(n); w = v; }
            }
            apply(*p, o, v, false); if (!fresh) { bad.insert(n); } else { want[o] = w; }
            MC_CHECK(same(OPT[o].kind, v, w), what, ": ", n, " became ", text(OPT[o].kind, v), ", expected ", text(OPT[o].kind, w));
        }
        for (int round = 0; round < 2; ++round)
        {
            MC_CHECK(p->IsGood() == (bad.empty() && !g.help), what, ": reported ", p->IsGood() ? "good" : "bad", bad.empty() ? "" : ", offending: " + *bad.begin());
            std::ostringstream e, h, o; p->ShowErrors(e); p->ShowHelp(h); p->ShowOptions(o);
            MC_CHECK(e.str().empty() == bad.empty(), what, ": errors shown: '", e.str(), "'");
            for (auto& b : bad) { MC_CHECK(e.str().find(b) != std::string::npos, what, ": errors do not name ", b, ": ", e.str()); }
            for (int k = 0; k < NOPT; ++k)
            {
                int nh = 0, no = 0;
                for (auto& l : split_lines(h.str())) { if (names(l, OPT[k].name)) { ++nh; MC_CHECK(l.find(OPT[k].help) != std::string::npos, what, ": help line '", l, "'"); } }
                for (auto& l : split_lines(o.str())) { if (names(l, OPT[k].name)) { ++no; std::string rest = l.substr(l.find(OPT[k].name) + strlen(OPT[k].name)), t = want.count(k) ? text(OPT[k].kind, want[k]) : ""; size_t q = rest.find(t); size_t hp = q == std::string::npos ? q : rest.find(OPT[k].help, q + t.size()); MC_CHECK(hp != std::string::npos && (hp > q + t.size() || t.empty() || !*OPT[k].help), what, ": option line '", l, "' expected value ", t); } }
                MC_CHECK(nh == (want.count(k) ? 1 : 0) && no == (want.count(k) ? 1 : 0), what, ": ", OPT[k].name, " is listed ", nh, " times in the help, ", no, " times in the options");
            }
        }
    }, &why);
    MC_CHECK(st == mc::Stop::none, what, ": stopped by ", why);
    mc::Hash h; for (auto& t : line) { h.s(t); } mc::state(h); MC_STEP(what);
}
std::vector<int> registration(int r)
{
    switch (r)
    {
    case 0: return {0, 1, 2, 3, 4, 5, 6};
    case 1: return {6, 5, 4, 3, 2, 1, 0};
    case 2: return {2, 0};
    case 3: return {0, 2, 4, 2};
    case 4: return {};
    case 5: return {3, 1, 3, 1, 3};
    default: return {7, 4};
    }
}
}
MC_SCENARIO(lines, 3)
{
    int n = mc::choose(mc::thorough() ? 6 : 5); int reg = mc::choose(n >= 5 ? 1 : n == 4 ? 2 : 7); std::vector<std::string> l; for (int i = 0; i < n; ++i) { l.push_back(mc::pick(TOKEN)); }
    check(l, registration(reg), false);
}
MC_SCENARIO(long_lines, 3)
{
    // a fixed good line, with up to two deviations anywhere: a token replaced, removed, repeated or inserted
    std::vector<std::string> base = {"--b", "--n", "5", "--x", "-1e3", "--s", "two words", "-k", "-3"}, l; mc::set_budget(2);
    for (auto& t : base)
    {
        int d = mc::deviate(3 + (int)TOKEN.size());
        if (d == 0) { l.push_back(t); } else if (d == 1) { } else if (d == 2) { l.push_back(t); l.push_back(t); } else { l.push_back(TOKEN[d - 3]); if (mc::flag()) { l.push_back(t); } }
    }
    check(l, registration(mc::choose(2)), mc::flag());
}
MC_SCENARIO(registrations, 3)
{
    // every order of registering up to 4 options (repeats included) on one full line
    std::vector<std::string> l = {"--bc", "--n", "12", "--s", "x y  z", "-k", "8", "--long-option-name", "123", "--x", ".5"}; int n = mc::choose(5); std::vector<int> r; for (int i = 0; i < n; ++i) { r.push_back(mc::choose(NOPT)); }
    check(l, r, false);
}
MC_SCENARIO(values, 3)
{
    std::vector<std::string> v = {"0", "-0", "+5", "007", "2147483647", "-2147483648", "2147483648", "1e3", "1e400", "-.5", "5.", "1e", "--5", "-", "=", "a=b", "--n=5", "5 6", "\t5", "é", "true", "long text with many words", "'quoted'", "18446744073709551615"};
    int o = mc::choose(5); const char* name[] = {"--n", "--x", "--s", "-k", "--quiet"}; std::string t = mc::pick(v);
    if (t == "\t5" && o != 2 && o != 4) { mc::prune(); }         // blanks around a number: either reading is fine
    if (t == "1e400" && o == 1) { mc::prune(); }                // out of range of the type
    std::vector<int> r = {2, 3, 4, 5, 7}; check({name[o], t}, r, mc::flag());
}
MC_SCENARIO(two_parsers, 2)
{
    auto a = make({"--n", "5", "--b"}), c = make({"--n", "6", "--help"}); ArgParser none; int order = mc::choose(4); int n = 1, m = 1; bool b = false;
    if (order & 1) { a->Parse(n, "--n"); c->Parse(m, "--n"); } else { c->Parse(m, "--n"); a->Parse(n, "--n"); }
    if (order & 2) { c->Parse(b, "--b"); MC_CHECK(!b, "--b leaked between parsers"); } int k = 3; none.Parse(k, "--n");
    MC_CHECK(n == 5 && m == 6 && k == 3 && a->IsGood() && !c->IsGood() && none.IsGood(), "parsers are not independent: ", n, " ", m, " ", k);
    const char* nothing[] = {nullptr}; ArgParser z(0, nothing); MC_CHECK(z.IsGood(), "empty argument vector");
    mc::state(order); MC_STEP("two parsers");
}
// hundreds of options, long names, values and help texts; which are given, in which order, and one mistake somewhere
MC_SCENARIO(many_options, 3)
{
    int n = mc::pick({17, 40, 130, 300}), given = mc::choose(4), order = mc::choose(2), mistake = mc::choose(6), len = mc::pick({1, 70, 700}), at = mc::choose(3) * (n / 2 - 1);
    struct X { std::string name, help, value; bool given, b = false; int i = -5; double d = -5; std::string s = "none"; int kind; }; std::vector<X> x(n);
    for (int k = 0; k < n; ++k)
    {
        auto& o = x[k]; o.kind = k % 4; o.name = mc::S("--", std::string(1 + (k % 5 == 4 ? len : 0), 'a' + k % 26), k); o.help = mc::S("help of ", k, std::string(k % 7 == 3 ? len : 1, '.'));
        o.given = given == 0 || (given == 1 && k % 2) || (given == 2 && k == at) || (given == 3 && k != at); o.value = o.kind == 1 ? mc::S(k * 7 - 50) : o.kind == 2 ? mc::S(k * 0.25 - 8) : mc::S("v", std::string(k % 3 ? len : 0, 'x'), k);
    }
    std::vector<std::string> l; for (int q = 0; q < n; ++q) { int k = order ? n - 1 - q : q; if (x[k].given) { l.push_back(x[k].name); if (x[k].kind) { l.push_back(x[k].value); } } }
    std::string bad; bool help = false;
    switch (mistake)                                                         // 0: none
    {
    case 1: bad = "stray" + std::string(len, 'y'); l.insert(l.begin(), bad); break;
    case 2: if (!x[at].given) { mc::prune(); } bad = x[at].name; l.push_back(bad); break;
    case 3: l.push_back("--help"); help = true; break;
    case 4: if (!x[at].given || x[at].kind == 0 || x[at].kind == 3) { mc::prune(); } for (auto& t : l) { if (t == x[at].value) { t += "z"; } } bad = x[at].name; x[at].given = false; break;
    case 5: l.insert(l.begin(), "--never-registered"); break;
    }
    std::string what = mc::S(n, " options, ", l.size(), " arguments, mistake ", mistake), why; auto st = mc::guarded([&]
    {
        auto p = make(l);
        for (int k = 0; k < n; ++k)
        {
            auto& o = x[k];
            switch (o.kind) { case 0: p->Parse(o.b, o.name, o.help); break; case 1: p->Parse(o.i, o.name, o.help); break; case 2: p->Parse(o.d, o.name, o.help); break; default: p->Parse(o.s, o.name, o.help); }
            if (mistake == 2 && k == at) { continue; }
            switch (o.kind)
            {
            case 0: MC_CHECK(o.b == o.given, what, ": ", o.name, " became ", o.b); break;
            case 1: MC_CHECK(o.i == (o.given ? k * 7 - 50 : -5), what, ": ", o.name, " became ", o.i); break;
            case 2: MC_CHECK(o.d == (o.given ? k * 0.25 - 8 : -5), what, ": ", o.name, " became ", o.d); break;
            default: MC_CHECK(o.s == (o.given ? o.value : "none"), what, ": ", o.name, " became ", o.s);
            }
        }
        MC_CHECK(p->IsGood() == (bad.empty() && !help), what, ": reported ", p->IsGood() ? "good" : "bad");
        std::ostringstream e, h, o; p->ShowErrors(e); p->ShowHelp(h); p->ShowOptions(o);
        MC_CHECK(e.str().empty() == bad.empty() && e.str().find(bad) != std::string::npos, what, ": errors shown: '", e.str(), "'");
        auto hl = split_lines(h.str()), ol = split_lines(o.str());
        for (auto& k : x)
        {
            int nh = 0, no = 0; for (auto& t : hl) { if (names(t, k.name)) { ++nh; MC_CHECK(t.find(k.help) != std::string::npos, what, ": help line '", t, "'"); } } for (auto& t : ol) { if (names(t, k.name)) { ++no; if (k.given && k.kind && mistake != 2) { MC_CHECK(t.find(k.value) != std::string::npos, what, ": option line '", t, "'"); } } }
            MC_CHECK(nh == 1 && no == 1, what, ": ", k.name, " is listed ", nh, " times in the help, ", no, " times in the options");
        }
    }, &why);
    MC_CHECK(st == mc::Stop::none, what, ": stopped by ", why); mc::state(mc::Hash().u(n).u(given).u(order).u(mistake).u(len).u(at)); MC_STEP(what);
}
// names that resemble the help request, numbers, each other or nothing at all; every pair, as switch, count or text
MC_SCENARIO(option_names, 3)
{
    static const std::vector<std::string> N = {"--helpers", "--hel", "-help", "--Help", "--help-all", "--help=", "-h", "--no-b", "--", "---", "-", "-1", "-.5", "--n=5", "-n", "--n", "--nn", "--N", "--\xc3\xa9", "--a.b", "--true", "--a b", "-x1", "--1"};
    int i = mc::choose((int)N.size()), j = mc::choose((int)N.size()), ki = mc::choose(3), kj = mc::choose(3), order = mc::choose(2), help = mc::choose(3); if (i == j) { mc::prune(); }
    std::vector<std::string> l; if (help == 1) { l.push_back("--help"); }
    for (int q = 0; q < 2; ++q) { int o = q ? j : i, k = q ? kj : ki; l.push_back(N[o]); if (k) { l.push_back(k == 1 ? mc::S(3 + q) : mc::S("-text", q)); } }
    if (help == 2) { l.push_back("--help"); }
    if (ki == 0 && N[j].compare(0, 2, "--") != 0) { mc::prune(); }              // a switch in front of something that may be its value
    std::string what = "[" + join(l) + "]", why; auto st = mc::guarded([&]
    {
        auto p = make(l); bool b[2] = {false, false}; int n[2] = {1, 1}; std::string s[2] = {"none", "none"};
        for (int q : {order, 1 - order}) { int k = q ? kj : ki; const std::string& name = N[q ? j : i]; if (k == 0) { p->Parse(b[q], name, "help"); } else if (k == 1) { p->Parse(n[q], name, "help"); } else { p->Parse(s[q], name, "help"); } }
        for (int q = 0; q < 2; ++q) { int k = q ? kj : ki; MC_CHECK(b[q] == (k == 0) && n[q] == (k == 1 ? 3 + q : 1) && s[q] == (k == 2 ? mc::S("-text", q) : "none"), what, ": option ", N[q ? j : i], " became ", b[q], " / ", n[q], " / ", s[q]); }
        bool unrelated = false; p->Parse(unrelated, "--unrelated"); MC_CHECK(!unrelated, what, ": an option that is not there was set");
        std::ostringstream e; p->ShowErrors(e); MC_CHECK(p->IsGood() == (help == 0) && e.str().empty(), what, ": reported ", p->IsGood() ? "good" : "bad", ", errors '", e.str(), "'");
    }, &why);
    MC_CHECK(st == mc::Stop::none, what, ": stopped by ", why);
    mc::state(mc::Hash().u(i).u(j).u(ki).u(kj).u(order).u(help).u(7)); MC_STEP(what);
}

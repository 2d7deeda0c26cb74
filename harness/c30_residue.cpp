// C30: a call's result depends on its arguments only (not on earlier calls, their sizes or failures, nor on what memory held
// before), and leaves no memory, open file or changed process setting behind.
#include "ops.hpp"
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <locale>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
using namespace linalgcpp; using ops::World; using ops::Local; using ops::Op;
namespace { int pattern = 0xff; }
// fresh memory holds what the explorer says
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } memset(p, pattern, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) { memset(p, pattern, n); } return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
namespace
{
struct Answer { uint64_t result, world; int done; char text[3000]; };
Answer* answer() { static Answer* a = (Answer*)mmap(nullptr, sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return a; }
void say(const std::string& s) { if (!answer()->text[0]) { snprintf(answer()->text, sizeof(answer()->text), "%s", s.c_str()); } }
std::string dir(const char* name) { std::string d = mc::scratch() + "/" + name; mkdir(d.c_str(), 0700); return d; }
// calls that must fail, and leave everything as it was
struct Fail { const char* name; void (*run)(World&); bool works; };
struct NoTranspose : Operator { NoTranspose(int n) : Operator(n) {} void Mult(const VectorView<double>& a, VectorView<double> b) const override { b = a; } };
void damaged(World& w, const char* text) { std::ofstream o(w.dir + "/in.bad"); o << text; }
const std::vector<Fail>& failing()
{
#define F(name, ...) {name, [](World& w) { __VA_ARGS__; }, false}
#define G(name, ...) {name, [](World& w) { __VA_ARGS__; }, true}
    static const std::vector<Fail> l = {
        F("read missing text", ReadText(w.dir + "/none")), F("read missing binary vector", ReadBinaryVect(w.dir + "/none")), F("read missing binary matrix", ReadBinaryMat(w.dir + "/none")), F("read missing csr", ReadCSR(w.dir + "/none")),
        F("read missing matrix market", ReadMTX(w.dir + "/none")), F("read missing matrix market list", ReadMTXList(w.dir + "/none")), F("read missing coordinate list", ReadCooList(w.dir + "/none")), F("read missing adjacency list", ReadAdjList(w.dir + "/none")),
        F("read missing graph list", ReadGraphList(w.dir + "/none")), F("read missing table", ReadTable(w.dir + "/none")),
        F("read damaged text", damaged(w, "1 2 3 4 5 6 7 x"); ReadText(w.dir + "/in.bad")), F("read damaged binary vector", damaged(w, "\x09\0\0\0\0\0\0\0 12345"); ReadBinaryVect(w.dir + "/in.bad")), F("read damaged binary matrix", damaged(w, "short"); ReadBinaryMat(w.dir + "/in.bad")),
        F("read damaged csr", damaged(w, "2 2 0 1 2 0 1 3.5 x"); ReadCSR(w.dir + "/in.bad")), F("read damaged matrix market", damaged(w, "%%MatrixMarket\n2 2 2\n1 1 5\n2 2 y"); ReadMTX(w.dir + "/in.bad")), F("read damaged matrix market list", damaged(w, "2 2 2\n1 1\n2"); ReadMTXList(w.dir + "/in.bad")),
        F("read damaged coordinate list", damaged(w, "0 0 1\n1 1"); ReadCooList(w.dir + "/in.bad")), F("read damaged adjacency list", damaged(w, "0 0\n1"); ReadAdjList(w.dir + "/in.bad")), F("read damaged graph list", damaged(w, "0 1\nx"); ReadGraphList(w.dir + "/in.bad")), F("read damaged table", damaged(w, "0 1\n1 x"); ReadTable(w.dir + "/in.bad")),
        F("write text nowhere", WriteText(w.sd, w.dir + "/no/file")), F("write binary vector nowhere", WriteBinary(w.sd, w.dir + "/no/file")), F("write binary matrix nowhere", WriteBinary(w.A, w.dir + "/no/file")), F("write csr nowhere", WriteCSR(w.A, w.dir + "/no/file")), F("write matrix market nowhere", WriteMTX(w.A, w.dir + "/no/file")),
        F("write coordinate list nowhere", WriteCooList(w.A, w.dir + "/no/file")), F("write adjacency list nowhere", WriteAdjList(w.G, w.dir + "/no/file")), F("write table nowhere", WriteTable(w.I, w.dir + "/no/file")),
        F("write text to a full device", std::vector<double> v(5000, 1.5); WriteText(v, "/dev/full")), F("write csr to a full device", WriteCSR(w.A, "/dev/full")), F("write binary to a full device", WriteBinary(w.A, "/dev/full")),
        F("transpose of an operator without one", NoTranspose o(w.n); static_cast<const Operator&>(o).MultAT(w.x)),
        F("integer normalisation", Vector<int> v(w.k); v.Normalize()),
        F("failed verification", linalgcpp_verify(false, "a message that is long enough to need storage of its own")),
        // calls with output to the standard streams
        G("print a vector", w.x.Print("x"); w.k.Print("k"); std::cout << w.x << w.y), G("print a sparse matrix", w.A.Print("A"); w.I.Print("I")), G("print a sparse matrix as dense", w.R.PrintDense("R")), G("print a dense matrix", w.D.Print("D"); w.D.Print("D", std::cout, 20, 12)),
        G("print a coordinate matrix", w.C.Print("C")), G("print a list matrix", w.L.Print("L")), G("print a block matrix", w.B.Print("B"); w.B.PrintDense("B")), G("print a block vector", w.bv.Print("b")),
        G("verbose solvers", Vector<double> v(w.n, 0.0); PCGSolver c(w.A, 20, 1e-10, 0, true); c.Mult(w.x, VectorView<double>(v)); MINRESSolver m(w.A, 20, 1e-10, 0, true); m.Mult(w.x, VectorView<double>(v)); PMINRESSolver p(w.A, w.U, 20, 1e-10, 0, true); p.Mult(w.x, VectorView<double>(v))),
        G("show options", const char* a[] = {"prog", "--n", "3", "--bad"}; ArgParser p(4, a); int n = 1; double t = 0.5; bool f = false; p.Parse(n, "--n", "number"); p.Parse(t, "--t", "tolerance"); p.Parse(f, "--f", "flag"); p.ShowOptions(); p.ShowErrors(); p.ShowHelp()),
        G("empty eigenproblem", EigenSolver e; EigenPair q; e.Solve(DenseMatrix(0), 1.0, 1, q)),
    };
#undef F
#undef G
    return l;
}
// the generators of the C library, read without drawing from them
uint64_t generators()
{
    mc::Hash h; static char spare[128]; char* used = initstate(1, spare, sizeof(spare)); const int* w = (const int*)used; for (int i = 0; i < 32; ++i) { h.u(w[i]); } setstate(used);
    unsigned short any[3] = {1, 2, 3}, old[3]; memcpy(old, seed48(any), sizeof(old)); h.u(old[0]).u(old[1]).u(old[2]); seed48(old);
    return h;
}
// process-wide settings and resources
std::string settings(bool draws = true)
{
    std::ostringstream o; if (draws) { o << "generators " << generators() << " "; }
    for (std::ios* s : {(std::ios*)&std::cout, (std::ios*)&std::cerr, (std::ios*)&std::clog, (std::ios*)&std::cin}) { o << s->flags() << "," << s->precision() << "," << s->width() << "," << (int)s->fill() << "," << s->exceptions() << "," << s->rdbuf() << ";"; }
    o << " locale " << std::locale().name() << "," << setlocale(LC_ALL, nullptr) << "," << std::cout.getloc().name() << " rounding " << fegetround() << " traps " << fegetexcept();
    char buf[4096]; o << " cwd " << (getcwd(buf, sizeof(buf)) ? buf : "?"); mode_t m = umask(0); umask(m); o << " umask " << m;
    for (int s : {SIGINT, SIGFPE, SIGPIPE, SIGTERM, SIGALRM, SIGXFSZ}) { struct sigaction a; sigaction(s, nullptr, &a); o << "," << (void*)a.sa_handler << a.sa_flags; }
    for (int r : {RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK}) { struct rlimit l; getrlimit(r, &l); o << "," << l.rlim_cur; }
    mc::Hash h; for (char** e = environ; *e; ++e) { h.s(*e); } o << " env " << (uint64_t)h;
    return o.str();
}
// what earlier calls left on the stack below
__attribute__((noinline, no_sanitize("address", "undefined"))) void dirty_stack(int p) { char b[1 << 18]; volatile char* v = b; for (size_t i = 0; i < sizeof(b); ++i) { v[i] = (char)p; } }
int entries(const char* d) { DIR* p = opendir(d); int n = 0; if (!p) { return -1; } while (readdir(p)) { ++n; } closedir(p); return n; }
std::string strangers(const std::string& d) { DIR* p = opendir(d.c_str()); std::string s; while (dirent* e = readdir(p)) { std::string f = e->d_name; if (f != "." && f != ".." && f.compare(0, 3, "in.") && f.compare(0, 4, "out.")) { s += f + " "; } } closedir(p); return s; }
bool run_fail(const Fail& f, World& w)
{
    uint64_t before = w.digest(); bool threw = false;
    try { f.run(w); } catch (const std::exception& e) { threw = true; if (f.works) { say(mc::S("'", f.name, "' failed: ", e.what())); return false; } }
    if (!threw && !f.works) { say(mc::S("'", f.name, "' reported nothing")); return false; }
    if (w.digest() != before) { say(mc::S("'", f.name, "' failed and changed an object")); return false; }
    return true;
}
// the result of an operation in a process where nothing happened before; fresh memory holds 0xff
struct Ref { uint64_t result, world; };
const Ref& reference(int b, int n)
{
    static std::map<std::pair<int, int>, Ref> known; auto key = std::make_pair(b, n); auto i = known.find(key); if (i != known.end()) { return i->second; }
    Answer* a = answer(); memset(a, 0, sizeof(*a)); std::string d = dir("ref");
    int st = mc::in_child([&] { World w(n, d); Local l; ops::all()[b].run(w, l); a->result = l.digest(); a->world = w.digest(); a->done = 1; return 0; }, 60);
    MC_CHECK(a->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, "'", ops::all()[b].name, "' (", n, ") ended its process with status ", st);
    return known[key] = Ref{a->result, a->world};
}
void all_references(int n) { for (int b = 0; b < (int)ops::all().size(); ++b) { reference(b, n); } }
bool same(const char* what, int b, int n, const Local& l, const World& w)
{
    const Ref& r = reference(b, n);
    if (l.digest() != r.result) { say(mc::S(what, ": the result of '", ops::all()[b].name, "' (", n, ") differs from the one it gives alone")); return false; }
    if (w.digest() != r.world) { say(mc::S(what, ": '", ops::all()[b].name, "' (", n, ") leaves its objects in another state than it does alone")); return false; }
    return true;
}
void judge(const char* what, int st)
{
    Answer* a = answer();
    MC_CHECK(!a->text[0], a->text);
    MC_CHECK(a->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, what, " ended its process with status ", st);
}
}
// after every operation or failing call, every operation gives what it gives alone
MC_SCENARIO(histories, 2)
{
    auto& o = ops::all(); auto& f = failing(); int a = mc::choose(o.size() + f.size()), na = mc::pick({6, 40}), nb = mc::pick({6, 40}); bool alive = mc::flag();
    if (na == 40 && nb == 40 && !mc::thorough()) { mc::prune(); }
    if (alive && na != nb && !mc::thorough()) { mc::prune(); }
    all_references(nb); Answer* r = answer(); memset(r, 0, sizeof(*r)); std::string da = dir("a"), db = dir("b");
    bool fails = a >= (int)o.size(); std::string name = fails ? f[a - o.size()].name : o[a].name;
    int st = mc::in_child([&]
    {
        std::vector<std::unique_ptr<World>> keep;
        for (int b = 0; b < (int)o.size(); ++b)
        {
            std::unique_ptr<World> w(new World(na, da)); std::unique_ptr<Local> l(new Local);
            if (fails) { if (!run_fail(f[a - o.size()], *w)) { return 1; } } else { o[a].run(*w, *l); }
            if (!alive) { l.reset(); w.reset(); }
            World wb(nb, db); Local lb; o[b].run(wb, lb);
            if (!same(mc::S("after '", name, "' (", na, ")").c_str(), b, nb, lb, wb)) { return 1; }
        }
        answer()->done = 1; return 0;
    }, 240);
    judge(name.c_str(), st);
    mc::state(mc::Hash().s(name).u(na).u(nb).u(alive)); for (size_t b = 0; b < o.size(); ++b) { mc::step(); }
    MC_TRACE("every operation (", nb, ") after '", name, "' (", na, ")");
}
// operations that only read, all on the same objects
MC_SCENARIO(readers, 2)
{
    auto& o = ops::all(); auto& f = failing(); int a = mc::choose(o.size() + f.size()), n = mc::pick({6, 40});
    bool fails = a >= (int)o.size(); if (!fails && !o[a].shareable) { mc::prune(); }
    all_references(n); Answer* r = answer(); memset(r, 0, sizeof(*r)); std::string d = dir("a"); std::string name = fails ? f[a - o.size()].name : o[a].name;
    int st = mc::in_child([&]
    {
        World w(n, d);
        for (int b = 0; b < (int)o.size(); ++b)
        {
            if (!o[b].shareable) { continue; }
            if (fails) { if (!run_fail(f[a - o.size()], w)) { return 1; } } else { Local l; o[a].run(w, l); if (!same(mc::S("again, after others that only read,").c_str(), a, n, l, w)) { return 1; } }
            Local lb; o[b].run(w, lb); if (!same(mc::S("after '", name, "' on the same objects").c_str(), b, n, lb, w)) { return 1; }
        }
        answer()->done = 1; return 0;
    }, 240);
    judge(name.c_str(), st);
    mc::state(mc::Hash().s(name).u(n).u(77)); for (size_t b = 0; b < o.size(); ++b) { mc::step(); }
    MC_TRACE("every reading operation after '", name, "' on the same objects (", n, ")");
}
// whatever fresh memory held
MC_SCENARIO(memory_contents, 2)
{
    auto& o = ops::all(); int b = mc::choose(o.size()), n = mc::pick({6, 17, 40}), p = mc::pick({0x00, 0x01, 0x3f, 0x80, 0xff}); reference(b, n);
    Answer* r = answer(); memset(r, 0, sizeof(*r)); std::string d = dir("a");
    int st = mc::in_child([&] { pattern = p; World w(n, d); Local l; dirty_stack(p); o[b].run(w, l); same(mc::S("when fresh memory holds ", p).c_str(), b, n, l, w); answer()->done = 1; return 0; }, 60);
    judge(o[b].name, st); mc::state(mc::Hash().u(b).u(n).u(p).u(78)); MC_STEP("'", o[b].name, "' (", n, ") when fresh memory holds ", p);
}
// repeated: the same answer every time, and nothing left behind
MC_SCENARIO(repetition, 2)
{
    auto& o = ops::all(); auto& f = failing(); int a = mc::choose(o.size() + f.size()), n = mc::pick({6, 40}); bool fails = a >= (int)o.size(); std::string name = fails ? f[a - o.size()].name : o[a].name;
    if (!fails) { reference(a, n); }
    Answer* r = answer(); memset(r, 0, sizeof(*r)); std::string d = dir("a"), cwd = dir("cwd");
    int st = mc::in_child([&]
    {
        if (chdir(cwd.c_str())) { return 2; }
        bool draws = name.rfind("partition", 0) != 0; // METIS seeds and draws from rand() itself
        std::string set = settings(draws); int fds = entries("/proc/self/fd"), tasks = entries("/proc/self/task"); size_t bytes = 0; const int ROUNDS = 9;
        for (int k = 0; k < ROUNDS; ++k)
        {
            {
                World w(n, d);
                if (fails) { if (!run_fail(f[a - o.size()], w)) { return 1; } }
                else { Local l; o[a].run(w, l); if (!same(mc::S("repetition ", k).c_str(), a, n, l, w)) { return 1; } }
            }
            size_t now = __sanitizer_get_current_allocated_bytes();
            if (k == 3) { bytes = now; }
            if (k > 3 && now != bytes) { say(mc::S("'", name, "' (", n, ") leaves ", (long)(now - bytes), " bytes of memory behind")); return 1; }
            if (entries("/proc/self/fd") != fds) { say(mc::S("'", name, "' (", n, ") leaves a file open")); return 1; }
            if (entries("/proc/self/task") != tasks) { say(mc::S("'", name, "' (", n, ") leaves a thread running")); return 1; }
            if (settings(draws) != set) { say(mc::S("'", name, "' (", n, ") changes a setting of the process: ", set, " became ", settings(draws))); return 1; }
            std::string s = strangers(d) + strangers(cwd); if (!s.empty() || entries(cwd.c_str()) != 2) { say(mc::S("'", name, "' (", n, ") leaves the file ", s, " behind")); return 1; }
        }
        answer()->done = 1; return 0;
    }, 60);
    judge(name.c_str(), st); mc::state(mc::Hash().s(name).u(n).u(79)); MC_STEP("'", name, "' (", n, ") repeated");
}

// C31: when memory runs out, at whichever allocation, a call throws std::bad_alloc (or still gives its result); the objects it
// only reads are unchanged, all objects remain usable, nothing leaks and the call can be repeated.
#include "ops.hpp"
#include <dirent.h>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace linalgcpp; using ops::World; using ops::Local; using ops::Op;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace { volatile long countdown = -1; bool persistent; volatile bool refused; bool refuse() { if (countdown < 0) { return false; } if (countdown == 0) { refused = true; if (!persistent) { countdown = -1; } return true; } --countdown; return false; } }
void* operator new(size_t n) { void* p = refuse() ? nullptr : malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
namespace
{
struct Answer { long at, runs; int done; char text[2000]; };
Answer* answer() { static Answer* a = (Answer*)mmap(nullptr, sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return a; }
void say(const std::string& s) { if (!answer()->text[0]) { snprintf(answer()->text, sizeof(answer()->text), "%s", s.c_str()); } }
std::string dir(const char* name) { std::string d = mc::scratch() + "/" + name; mkdir(d.c_str(), 0700); return d; }
int entries(const char* d) { DIR* p = opendir(d); int n = 0; if (!p) { return -1; } while (readdir(p)) { ++n; } closedir(p); return n; }
enum class End { fine, refused, other };
// runs f with the k-th allocation refused (and all after it); false: f needs fewer
template <typename F> End limited(long k, bool all, std::string& what, F f)
{
    End e = End::fine; refused = false; persistent = all; countdown = k;
    try { f(); countdown = -1; } catch (const std::bad_alloc&) { countdown = -1; e = End::refused; } catch (const std::exception& x) { countdown = -1; what = x.what(); e = End::other; } catch (...) { countdown = -1; what = "something else"; e = End::other; }
    return e;
}
// streams record a failed allocation in their own state
bool prints(const Op& o) { std::string n = o.name; return n.find("print") != std::string::npos || n == "command line"; }
}
MC_SCENARIO(every_allocation, 2)
{
    auto& o = ops::all(); int a = mc::choose(o.size()), n = mc::pick({6, 40}); bool all = mc::flag(); const Op& op = o[a];
    if (n == 40 && !mc::thorough() && all) { mc::prune(); }
    std::string d = dir("w"); Answer* r = answer(); memset(r, 0, sizeof(*r));
    int st = mc::in_child([&]
    {
        uint64_t want, after, before; bool repeats; { World w(n, d); Local l, m; before = w.digest(); op.run(w, l); want = l.digest(); after = w.digest(); op.run(w, m); repeats = m.digest() == want && w.digest() == after; }
        // what the first rounds leave behind (locales, message buffers) is not the call's
        for (int i = 0; i < 3; ++i) { World w(n, d); std::unique_ptr<Local> l(new Local); op.run(w, *l); std::string what; { World v(n, d); Local m; limited(i, all, what, [&] { op.run(v, m); }); } }
        size_t bytes = 0; for (int i = 0; i < 3; ++i) { { World w(n, d); std::unique_ptr<Local> l(new Local); op.run(w, *l); w.digest(); l->digest(); } bytes = std::max(bytes, __sanitizer_get_current_allocated_bytes()); }
        int fds = entries("/proc/self/fd");
        for (long k = 0;; ++k)
        {
            r->at = k; bool reached;
            {
                World w(n, d); std::unique_ptr<Local> l(new Local); std::string what;
                End e = limited(k, all, what, [&] { op.run(w, *l); });
                reached = refused;
                if (e == End::other && !prints(op)) { what = mc::S("reports '", what, "' instead of std::bad_alloc"); if (!reached) { say(what); return 1; } }
                if (e == End::fine && !prints(op)) { if (l->digest() != want) { say("returned a wrong result"); return 1; } if (w.digest() != after) { say("left its objects in a wrong state"); return 1; } }
                if (e != End::fine)
                {
                    if (op.shareable && w.digest() != before) { say("changed an object it only reads"); return 1; }
                    w.digest(); if (!prints(op)) { l->digest(); }
                    if (op.shareable) { op.run(w, *l); Local again; op.run(w, again); if (again.digest() != want) { say("and then gave a wrong result with enough memory"); return 1; } }
                    else { Local again; op.run(w, again); again.digest(); w.digest(); if (repeats && again.digest() != want) { say("and then gave another result with enough memory"); return 1; } }
                }
            }
            size_t now = __sanitizer_get_current_allocated_bytes(); if (now > bytes) { say(mc::S("left ", (long)(now - bytes), " bytes behind")); return 1; }
            if (entries("/proc/self/fd") != fds) { say("left a file open"); return 1; }
            if (!reached) { break; }
        }
        r->done = 1; return 0;
    }, 200);
    std::string what = mc::S("'", op.name, "' (", n, ") whose allocation number ", r->at, all ? " and all later ones are refused " : " is refused ");
    MC_CHECK(!r->text[0], what, r->text);
    MC_CHECK(r->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, what, "ended the process with status ", st);
    mc::state(mc::Hash().u(a).u(n).u(all)); for (long k = 0; k < r->at; ++k) { mc::step(); mc::state(mc::Hash().u(a).u(n).u(all).u(k)); }
    MC_TRACE("'", op.name, "' (", n, "): ", r->at, " allocations refused in turn");
}
// construction of every kind of object
MC_SCENARIO(construction, 2)
{
    int n = mc::pick({6, 9}); bool all = mc::flag(); int part = mc::choose(8); std::string d = dir("w"); Answer* r = answer(); memset(r, 0, sizeof(*r));
    int st = mc::in_child([&]
    {
        uint64_t want; { World w(n, d); want = w.digest(); } for (int i = 0; i < 3; ++i) { std::string what; std::unique_ptr<World> w; limited(part + 40 * i, all, what, [&] { w.reset(new World(n, d)); }); }
        size_t bytes = 0; for (int i = 0; i < 3; ++i) { { World w(n, d); w.digest(); } bytes = std::max(bytes, __sanitizer_get_current_allocated_bytes()); }
        int fds = entries("/proc/self/fd");
        for (long k = part;; k += 8)
        {
            r->at = k; bool reached;
            { std::unique_ptr<World> w; std::string what; End e = limited(k, all, what, [&] { w.reset(new World(n, d)); }); reached = refused; if (e == End::fine && w->digest() != want) { say("built wrong objects"); return 1; } }
            size_t now = __sanitizer_get_current_allocated_bytes(); if (now > bytes) { say(mc::S("left ", (long)(now - bytes), " bytes behind")); return 1; }
            if (entries("/proc/self/fd") != fds) { say("left a file open"); return 1; }
            if (!reached) { break; }
        }
        r->done = 1; return 0;
    }, 200);
    std::string what = mc::S("building the objects (", n, ") with allocation number ", r->at, all ? " and all later ones refused " : " refused ");
    MC_CHECK(!r->text[0], what, r->text);
    MC_CHECK(r->done && WIFEXITED(st) && WEXITSTATUS(st) == 0, what, "ended the process with status ", st);
    mc::state(mc::Hash().u(n).u(all).u(part).u(5)); for (long k = 0; k < r->at / 8; ++k) { mc::step(); }
    MC_TRACE("construction (", n, "): ", r->at / 8, " allocations refused in turn");
}

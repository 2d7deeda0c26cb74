// C28: operations of two threads on their own objects, or on shared matrices and vectors they only read, touch no byte in
// common unless both read it.  Every pair of operations is run in both orders in a fresh process under a happens-before
// conflict detector; without a conflict all interleavings are equivalent to the one executed.
#include "ops.hpp"
#include "race.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
using ops::World; using ops::Local; using ops::Op;
namespace
{
struct Answer { unsigned long long accesses; char conflict[1500], error[300]; };
Answer* answer() { static Answer* a = (Answer*)mmap(nullptr, sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return a; }
std::string dir(const char* name) { std::string d = mc::scratch() + "/" + name; mkdir(d.c_str(), 0700); return d; }
void pair(const Op& a, const Op& b, int mode, int na, int nb)
{
    std::string da = dir("a"), db = dir("b"); Answer* r = answer(); memset(r, 0, sizeof(*r));
    int st = mc::in_child([&]
    {
        race::Result q;
        if (mode == 0)          // own objects, made before
        {
            World wa(na, da), wb(nb, db); Local la, lb;
            q = race::run([&] { a.run(wa, la); }, [&] { b.run(wb, lb); });
        }
        else if (mode == 1)     // own objects, made by the threads
        {
            q = race::run([&] { World w(na, da); Local l; a.run(w, l); }, [&] { World w(nb, db); Local l; b.run(w, l); });
        }
        else                    // shared objects, only read; files of their own
        {
            World w(na, da); Local la, lb; World wb(nb, db);
            q = race::run([&] { a.run(w, la); }, [&] { b.run(w, lb); });
        }
        r->accesses = q.accesses; snprintf(r->conflict, sizeof(r->conflict), "%s", q.conflict.c_str()); snprintf(r->error, sizeof(r->error), "%s", q.error.c_str());
        return 0;
    }, 60);
    std::string what = mc::S("'", a.name, "' (", na, ") and '", b.name, "' (", nb, ")", mode == 2 ? " on shared objects" : mode ? " on objects made by each thread" : " on their own objects");
    MC_CHECK(!r->error[0], what, ": ", r->error);
    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, what, ": the process ended with status ", st);
    MC_CHECK(!r->conflict[0], what, " conflict: ", r->conflict);
    mc::state(mc::Hash().s(a.name).s(b.name).u(mode).u(na).u(nb)); MC_STEP(what, ": ", r->accesses, " accesses, no conflict");
}
}
MC_SCENARIO(pairs, 2)
{
    auto& o = ops::all(); const Op& a = o[mc::choose(o.size())], & b = o[mc::choose(o.size())]; int mode = mc::choose(a.shareable && b.shareable ? 3 : 2);
    int size = mc::choose(mode == 2 ? 1 : mc::thorough() ? 3 : 1);
    pair(a, b, mode, size == 1 ? 40 : 6, size == 2 ? 40 : 6);
}
// an operation against itself, in every size order (workspaces kept between calls grow with the larger)
MC_SCENARIO(same_operation, 2)
{
    auto& o = ops::all(); const Op& a = o[mc::choose(o.size())]; int mode = mc::choose(2), na = mc::pick({4, 6, 17, 40}), nb = mc::pick({4, 6, 17, 40});
    pair(a, a, mode, na, nb);
}

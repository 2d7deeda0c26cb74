#include "ranks.hpp"
#include "mpi.h"
#include "comm.hpp"
#include "mc.hpp"
#include <deque>
#include <map>
#include <memory>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <ucontext.h>

namespace ranks
{
namespace
{
const size_t STACK = 1 << 18;
struct Rank { ucontext_t ctx; std::unique_ptr<char[]> stack; bool done; std::function<bool()> ready; void* fake; std::string error; size_t collectives; };
struct Call { std::string what; std::vector<std::vector<char>> in; std::vector<char> here; int count; };
std::vector<std::unique_ptr<char[]>> stacks;
std::vector<Rank> all;
std::vector<Call> calls;
std::map<std::pair<int, int>, std::deque<std::pair<int, std::vector<char>>>> mail;
std::vector<int> order;                            // arrivals at the current exchange, per collective
std::map<size_t, std::vector<int>> arrivals;
ucontext_t scheduler; void* scheduler_fake; const void* scheduler_stack; size_t scheduler_size;
int now = -1; unsigned long long comms;
const std::function<void(int)>* body_;

void back(bool last = false)
{
    Rank& r = all[now];
    __sanitizer_start_switch_fiber(last ? nullptr : &r.fake, scheduler_stack, scheduler_size);
    swapcontext(&r.ctx, &scheduler);
    __sanitizer_finish_switch_fiber(r.fake, &scheduler_stack, &scheduler_size);
}
void start()
{
    __sanitizer_finish_switch_fiber(nullptr, &scheduler_stack, &scheduler_size);
    Rank& r = all[now];
    try { (*body_)(now); }
    catch (const std::exception& e) { r.error = e.what(); }
    catch (...) { r.error = "an exception"; }
    r.done = true;
    back(true);
}
bool always() { return true; }
}
void wait(const std::function<bool()>& ready)
{
    if (ready()) { return; }
    all[now].ready = ready;
    back();
}
void point() { ++comms; all[now].ready = always; back(); }
int rank() { if (now < 0) { mc::fail("communication outside a rank"); } return now; }
int size() { return (int)all.size(); }
unsigned long long communications() { return comms; }

// one collective call: every rank brings `bytes`; returns the index of the call
size_t enter(const std::string& what, const void* data, size_t bytes, bool may_differ)
{
    point();
    size_t k = all[now].collectives++;
    if (k == calls.size()) { Call c; c.what = what; c.in.resize(size()); c.here.assign(size(), 0); c.count = 0; calls.push_back(c); }
    Call& c = calls[k];
    std::string w = may_differ ? what : what + " of " + std::to_string(bytes) + " bytes";
    if (c.count == 0) { c.what = w; }
    if (c.what != w) { mc::fail(mc::S("rank ", now, " calls ", w, " where another rank calls ", c.what)); }
    c.in[now].assign((const char*)data, (const char*)data + bytes);
    c.here[now] = 1; ++c.count; arrivals[k].push_back(now);
    return k;
}
const std::vector<char>& brought(size_t k, int r) { return calls[k].in[r]; }
bool here(size_t k, int r) { return calls[k].here[r]; }
bool complete(size_t k) { return calls[k].count == size(); }
const std::vector<int>& arrived(size_t k) { return arrivals[k]; }
void send(int to, int tag, const void* data, size_t bytes)
{
    if (to < 0 || to >= size()) { mc::fail(mc::S("message to rank ", to)); }
    mail[{now, to}].push_back({tag, std::vector<char>((const char*)data, (const char*)data + bytes)});
}
std::vector<char> receive(int from, int tag)
{
    if (from < 0 || from >= size()) { mc::fail(mc::S("message from rank ", from)); }
    int me = now;
    auto& q = mail[{from, me}];
    auto find = [&]() { for (auto i = q.begin(); i != q.end(); ++i) { if (i->first == tag) { return i; } } return q.end(); };
    wait([&]() { return find() != q.end(); });
    auto i = find(); auto r = i->second; q.erase(i);
    return r;
}

void run(int n, Schedule s, const std::function<void(int)>& body)
{
    while ((int)stacks.size() < n) { stacks.emplace_back(new char[STACK]); }
    all.clear(); all.resize(n); calls.clear(); mail.clear(); arrivals.clear(); body_ = &body; comms = 0;
    for (int i = 0; i < n; ++i)
    {
        Rank& r = all[i];
        __asan_unpoison_memory_region(stacks[i].get(), STACK);
        getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = stacks[i].get(); r.ctx.uc_stack.ss_size = STACK; r.ctx.uc_link = nullptr;
        makecontext(&r.ctx, start, 0);
        r.done = false; r.ready = always; r.fake = nullptr; r.collectives = 0;
    }
    int cur = s == descending ? n : -1, left = n;
    while (left)
    {
        std::vector<int> can;
        for (int k = 0; k < n; ++k)
        {
            int i = s == ascending || s == explored ? k : s == descending ? n - 1 - k : s == alternating ? (cur + 1 + k + n) % n : (std::max(cur, 0) + k) % n;
            if (!all[i].done && all[i].ready()) { can.push_back(i); }
        }
        if (can.empty())
        {
            std::string who; for (int i = 0; i < n; ++i) { if (!all[i].done) { who += " " + std::to_string(i); } }
            mc::fail("the ranks wait for each other forever:" + who);
        }
        int w = s == explored ? mc::choose((int)can.size()) : s == bounded ? mc::deviate((int)can.size()) : 0;
        cur = now = can[w];
        __sanitizer_start_switch_fiber(&scheduler_fake, stacks[cur].get(), STACK);
        swapcontext(&scheduler, &all[cur].ctx);
        __sanitizer_finish_switch_fiber(scheduler_fake, nullptr, nullptr);
        now = -1;
        if (all[cur].done) { --left; if (!all[cur].error.empty()) { mc::fail(mc::S("rank ", cur, " of ", n, ": ", all[cur].error)); } }
    }
    for (auto& m : mail) { if (!m.second.empty()) { mc::fail(mc::S("a message from rank ", m.first.first, " to rank ", m.first.second, " is never received")); } }
    for (size_t k = 0; k < calls.size(); ++k) { if (calls[k].count != n) { mc::fail(mc::S("only ", calls[k].count, " of ", n, " ranks call ", calls[k].what)); } }
}
} // namespace ranks

using namespace ranks;
namespace
{
size_t width(MPI_Datatype t) { return t == MPI_INT ? sizeof(int) : sizeof(double); }
template <typename T> void fold(const char* in, void* out, int n, MPI_Op op, bool first)
{
    const T* a = (const T*)in; T* b = (T*)out;
    for (int i = 0; i < n; ++i) { b[i] = first ? a[i] : op == MPI_SUM ? b[i] + a[i] : op == MPI_MAX ? std::max(a[i], b[i]) : std::min(a[i], b[i]); }
}
void fold(size_t k, int from, int to, void* out, int n, MPI_Datatype t, MPI_Op op)
{ for (int r = from; r < to; ++r) { if (t == MPI_INT) { fold<int>(brought(k, r).data(), out, n, op, r == from); } else { fold<double>(brought(k, r).data(), out, n, op, r == from); } } }
std::string name(const char* f, MPI_Comm c, MPI_Datatype t, int op, int root)
{
    if (c != MPI_COMM_WORLD) { mc::fail(mc::S(f, " on a communicator that does not exist: ", c)); }
    return mc::S(f, " type ", (int)t, " op ", op, " root ", root);
}
}
int MPI_Comm_rank(MPI_Comm c, int* r) { if (c != MPI_COMM_WORLD) { mc::fail(mc::S("MPI_Comm_rank of a communicator that does not exist: ", c)); } *r = rank(); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { if (c != MPI_COMM_WORLD) { mc::fail(mc::S("MPI_Comm_size of a communicator that does not exist: ", c)); } *n = size(); return MPI_SUCCESS; }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t k = enter(name("MPI_Allreduce", c, t, op, -1), in == MPI_IN_PLACE ? out : in, n * width(t), false);
    wait([=]() { return complete(k); }); fold(k, 0, size(), out, n, t, op); return MPI_SUCCESS;
}
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t k = enter(name("MPI_Scan", c, t, op, -1), in == MPI_IN_PLACE ? out : in, n * width(t), false); int me = rank();
    wait([=]() { for (int r = 0; r <= me; ++r) { if (!here(k, r)) { return false; } } return true; }); fold(k, 0, me + 1, out, n, t, op); return MPI_SUCCESS;
}
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    size_t k = enter(name("MPI_Exscan", c, t, op, -1), in == MPI_IN_PLACE ? out : in, n * width(t), false); int me = rank();
    wait([=]() { for (int r = 0; r < me; ++r) { if (!here(k, r)) { return false; } } return true; }); fold(k, 0, me, out, n, t, op); return MPI_SUCCESS;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    size_t k = enter(name("MPI_Reduce", c, t, op, root), in == MPI_IN_PLACE ? out : in, n * width(t), false);
    if (rank() == root) { wait([=]() { return complete(k); }); fold(k, 0, size(), out, n, t, op); } return MPI_SUCCESS;
}
int MPI_Bcast(void* data, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    if (root < 0 || root >= size()) { mc::fail(mc::S("MPI_Bcast from rank ", root)); }
    size_t k = enter(name("MPI_Bcast", c, t, -1, root), data, n * width(t), false);
    wait([=]() { return here(k, root); }); memmove(data, brought(k, root).data(), n * width(t)); return MPI_SUCCESS;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm c)
{
    size_t k = enter(name("MPI_Allgather", c, t, -1, -1), in, n * width(t), false);
    wait([=]() { return complete(k); }); for (int r = 0; r < size(); ++r) { memcpy((char*)out + r * n * width(t), brought(k, r).data(), n * width(t)); } return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c) { size_t k = enter(name("MPI_Barrier", c, MPI_INT, -1, -1), &c, 0, false); wait([=]() { return complete(k); }); return MPI_SUCCESS; }
int MPI_Send(const void* data, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { point(); send(to, tag, data, n * width(t)); return MPI_SUCCESS; }
int MPI_Recv(void* data, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status* s)
{
    point(); auto m = receive(from, tag); if (m.size() > n * width(t)) { mc::fail("a message is longer than the receiver expects"); }
    memcpy(data, m.data(), m.size()); if (s) { s->source = from; s->tag = tag; } return MPI_SUCCESS;
}

#include "race.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <vector>

namespace
{
struct Cell { uintptr_t key; uint8_t r, w; uint64_t rt, wt; void* rpc; void* wpc; };     // key = address / 8 + 1
struct Table
{
    std::vector<Cell> t; size_t n = 0;
    Cell& at(uintptr_t key)
    {
        if (t.empty()) { t.assign(1 << 14, Cell()); }
        if (n * 2 > t.size()) { std::vector<Cell> o(t.size() * 2, Cell()); o.swap(t); n = 0; for (auto& c : o) { if (c.key) { at(c.key) = c; } } }
        size_t m = t.size() - 1, i = (key * 0x9E3779B97F4A7C15ULL) >> 24 & m;
        while (t[i].key && t[i].key != key) { i = (i + 1) & m; }
        if (!t[i].key) { t[i].key = key; ++n; }
        return t[i];
    }
    Cell* find(uintptr_t key)
    {
        if (t.empty()) { return nullptr; }
        size_t m = t.size() - 1, i = (key * 0x9E3779B97F4A7C15ULL) >> 24 & m;
        while (t[i].key && t[i].key != key) { i = (i + 1) & m; }
        return t[i].key ? &t[i] : nullptr;
    }
};
Table log1;
std::map<uintptr_t, uint64_t> released;      // what the first thread released, and when
uint64_t clock1, ordered;                    // time of the first thread; up to which the second is ordered after it
unsigned long long accesses;
char conflict[400];
volatile bool recording;
thread_local int me;                         // 1, 2: recorded threads
thread_local int busy;

void access(const void* p, size_t size, bool write, void* pc)
{
    if (!me || busy || !size) { return; }
    busy = 1;
    ++accesses;
    uintptr_t a = (uintptr_t)p, e = a + size;
    while (a < e)
    {
        uintptr_t key = a / 8 + 1, end = (a & ~(uintptr_t)7) + 8;
        uint8_t mask = (uint8_t)(((1u << (std::min(e, end) - a)) - 1) << (a & 7));
        if (me == 1)
        {
            Cell& c = log1.at(key); ++clock1;
            if (write) { c.w |= mask; c.wt = clock1; c.wpc = pc; } else { c.r |= mask; c.rt = clock1; c.rpc = pc; }
        }
        else if (Cell* c = log1.find(key))
        {
            void* other = nullptr; const char* kind = nullptr;
            if ((c->w & mask) && c->wt > ordered) { other = c->wpc; kind = write ? "writes" : "reads what"; }
            else if (write && (c->r & mask) && c->rt > ordered) { other = c->rpc; kind = "writes what"; }
            if (other && !conflict[0])
            { snprintf(conflict, sizeof(conflict), "%p %p second thread %s the first thread %s at %p", pc, other, kind, (c->w & mask) && c->wt > ordered ? "writes" : "reads", (void*)a); }
        }
        a = end;
    }
    busy = 0;
}
void release(const void* p) { if (me == 1) { busy = 1; released[(uintptr_t)p] = ++clock1; busy = 0; } }
void acquire(const void* p) { if (me == 2) { busy = 1; auto i = released.find((uintptr_t)p); if (i != released.end() && i->second > ordered) { ordered = i->second; } busy = 0; } }
bool rel(int mo) { return mo >= 3; }          // release, acq_rel, seq_cst
bool acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
}
#define PC __builtin_return_address(0)

// memory freed while recording is not reused: two objects never share an address, so addresses identify bytes
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (!recording) { free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

extern "C"
{
void mc_access(const void* p, size_t bytes, int write) { access(p, bytes, write, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { access(p, 8, true, PC); } }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return v; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { if (rel(mo)) { release((const void*)p); } T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { if (rel(mo)) { release((const void*)p); } int r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (acq(mo)) { acquire((const void*)p); } return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fm) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fm); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fm) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fm); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block operations reach the C library as calls
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, PC); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
// the C library's functions with hidden state are not safe to call from two threads
static char hidden;
int __real_rand(); void __real_srand(unsigned); double __real_drand48(); char* __real_strtok(char*, const char*); long __real_random();
int __wrap_rand() { access(&hidden, 1, true, PC); return __real_rand(); }
void __wrap_srand(unsigned s) { access(&hidden, 1, true, PC); __real_srand(s); }
long __wrap_random() { access(&hidden, 1, true, PC); return __real_random(); }
double __wrap_drand48() { access(&hidden, 1, true, PC); return __real_drand48(); }
char* __wrap_strtok(char* s, const char* d) { access(&hidden, 1, true, PC); return __real_strtok(s, d); }
// synchronisation
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { release(m); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { int r = __real_pthread_once(o, f); release(o); acquire(o); return r; }
int __real___cxa_guard_acquire(long*); void __real___cxa_guard_release(long*);
int __wrap___cxa_guard_acquire(long* g) { int r = __real___cxa_guard_acquire(g); acquire(g); return r; }
void __wrap___cxa_guard_release(long* g) { release(g); __real___cxa_guard_release(g); }
// parts of the C++ library that are not templates
struct Node { Node* next; Node* prev; };
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(Node*, Node*); void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(Node*); void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(Node*, Node*, Node*);
void __real__ZNSt8__detail15_List_node_base10_M_reverseEv(Node*); void __real__ZNSt8__detail15_List_node_base4swapERS0_S1_(Node&, Node&);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(Node* n, Node* at) { access(n, 16, true, PC); access(&at->prev, 8, true, PC); access(&at->prev->next, 8, true, PC); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(n, at); }
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(Node* n) { access(n, 16, false, PC); access(&n->prev->next, 8, true, PC); access(&n->next->prev, 8, true, PC); __real__ZNSt8__detail15_List_node_base9_M_unhookEv(n); }
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(Node* at, Node* a, Node* b)
{
    if (at != b) { access(&b->prev->next, 8, true, PC); access(&a->prev->next, 8, true, PC); access(&at->prev->next, 8, true, PC); access(&at->prev, 8, true, PC); access(&b->prev, 8, true, PC); access(&a->prev, 8, true, PC); }
    __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(at, a, b);
}
void __wrap__ZNSt8__detail15_List_node_base10_M_reverseEv(Node* n) { Node* t = n; do { access(t, 16, true, PC); t = t->next; } while (t != n); __real__ZNSt8__detail15_List_node_base10_M_reverseEv(n); }
void __wrap__ZNSt8__detail15_List_node_base4swapERS0_S1_(Node& a, Node& b) { access(&a, 16, true, PC); access(&b, 16, true, PC); __real__ZNSt8__detail15_List_node_base4swapERS0_S1_(a, b); }
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*); void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* n, void* p, void* h) { access(n, 32, true, PC); access(p, 32, true, PC); access(h, 32, true, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, n, p, h); }
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* n, void* h) { access(n, 32, true, PC); access(h, 32, true, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(n, h); }
struct Flagged { bool first; size_t second; };
Flagged __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void*, size_t, size_t, size_t);
Flagged __wrap__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void* t, size_t a, size_t b, size_t c) { access(t, 16, true, PC); return __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(t, a, b, c); }
// external libraries: the arrays they are handed
int __real_umfpack_di_solve(int, const int*, const int*, const double*, double*, const double*, void*, const double*, double*);
int __wrap_umfpack_di_solve(int s, const int* p, const int* i, const double* x, double* X, const double* B, void* n, const double* c, double* info)
{ int k = 8; mc_access(p, k, 0); if (X) { mc_access(X, k, 1); } if (B) { mc_access(B, k, 0); } if (info) { mc_access(info, 90 * 8, 1); } if (c) { mc_access(c, 20 * 8, 0); } return __real_umfpack_di_solve(s, p, i, x, X, B, n, c, info); }
int __real_umfpack_di_symbolic(int, int, const int*, const int*, const double*, void**, const double*, double*);
int __wrap_umfpack_di_symbolic(int r, int q, const int* p, const int* i, const double* x, void** n, const double* c, double* info) { if (info) { mc_access(info, 90 * 8, 1); } mc_access(n, 8, 1); return __real_umfpack_di_symbolic(r, q, p, i, x, n, c, info); }
int __real_umfpack_di_numeric(const int*, const int*, const double*, void*, void**, const double*, double*);
int __wrap_umfpack_di_numeric(const int* p, const int* i, const double* x, void* s, void** n, const double* c, double* info) { if (info) { mc_access(info, 90 * 8, 1); } mc_access(n, 8, 1); return __real_umfpack_di_numeric(p, i, x, s, n, c, info); }
int __real_METIS_PartGraphKway(int*, int*, int*, int*, int*, int*, int*, int*, float*, float*, int*, int*, int*);
int __wrap_METIS_PartGraphKway(int* nv, int* nc, int* xa, int* ad, int* vw, int* vs, int* aw, int* np, float* tw, float* ub, int* op, int* ob, int* part)
{
    mc_access(part, 4ul * *nv, 1); mc_access(ob, 4, 1); mc_access(xa, 4ul * (*nv + 1), 0); if (xa[*nv]) { mc_access(ad, 4ul * xa[*nv], 0); } if (op) { mc_access(op, 160, 0); }
    return __real_METIS_PartGraphKway(nv, nc, xa, ad, vw, vs, aw, np, tw, ub, op, ob, part);
}
}

namespace race
{
namespace
{
struct Job { const std::function<void()>* f; int id; sem_t done, quit; std::string error; };
void* body(void* q)
{
    Job* j = (Job*)q;
    try { me = j->id; (*j->f)(); me = 0; }
    catch (const std::exception& e) { me = 0; j->error = e.what(); }
    catch (...) { me = 0; j->error = "exception"; }
    sem_post(&j->done);
    sem_wait(&j->quit);
    return nullptr;
}
std::string where(const char* pc)
{
    char exe[300] = "", cmd[500], buf[300] = ""; ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1); if (n < 0) { return pc; }
    snprintf(cmd, sizeof(cmd), "addr2line -Cfpse %s %s 2>/dev/null", exe, pc);
    if (FILE* f = popen(cmd, "r")) { if (!fgets(buf, sizeof(buf), f)) { buf[0] = 0; } pclose(f); }
    std::string s = buf; while (!s.empty() && s.back() == '\n') { s.pop_back(); } return s.empty() ? std::string(pc) : s;
}
}
Result run(const std::function<void()>& first, const std::function<void()>& second)
{
    recording = true;
    Job j[2];
    pthread_t t[2];
    for (int k = 0; k < 2; ++k)
    {
        j[k].f = k ? &second : &first; j[k].id = k + 1; sem_init(&j[k].done, 0, 0); sem_init(&j[k].quit, 0, 0);
        pthread_create(&t[k], nullptr, body, &j[k]);
        sem_wait(&j[k].done);
    }
    for (int k = 0; k < 2; ++k) { sem_post(&j[k].quit); pthread_join(t[k], nullptr); }
    recording = false;
    Result r; r.accesses = accesses; r.error = j[0].error + j[1].error;
    if (conflict[0])
    {
        char a[40], b[40]; int off = 0; sscanf(conflict, "%39s %39s %n", a, b, &off);
        r.conflict = std::string(conflict + off) + "\n  second thread: " + where(a) + "\n  first thread: " + where(b);
    }
    return r;
}
}

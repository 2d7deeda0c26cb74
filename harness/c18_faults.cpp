// C18: the storage refuses data at every byte; every writer must report it.
#include "io.hpp"
#include <csignal>
#include <map>
#include <sys/resource.h>
using namespace io;
namespace
{
struct Writer { const char* name; std::function<void(const std::string&)> write, verify; };
M table(int obj)
{
    switch (obj)
    {
    case 0: return family(2, 1, 1);
    case 1: { M m(3, 2); m.set(0, 1, 0.1); m.set(2, 0, -3); return m; }
    case 2: return family(2, 3, 3);
    case 3: return M(2, 2);
    case 4: return family(2, 40, 40);            // several stream buffers
    case 5: return family(2, 90, 90);
    default: return family(1, 12, 12);
    }
}
bool is_sym(const M& m) { return m.r == m.c; }
const std::vector<Writer>& writers(int obj)
{
    static std::map<int, std::vector<Writer>> made;      // built once per worker: the objects are never changed
    auto& w = made[obj]; if (!w.empty()) { return w; }
    M m = table(obj); if (is_sym(m)) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < i; ++j) { m(j, i) = m(i, j); m.s(j, i) = m.s(i, j); } }
    auto s = std::make_shared<SparseMatrix<double>>(sparse(m)); M mi = m; for (auto& x : mi.a) { x = std::trunc(10 * x); }
    auto si = std::make_shared<SparseMatrix<int>>(sparse<int>(mi)); auto ei = entries(mi);
    auto e = entries(m); std::vector<E> one = e; for (auto& x : one) { x.v = 1; } auto b = bounding(e); int cols = 0; for (auto& x : e) { cols = std::max(cols, x.j + 1); }
    std::vector<double> v(m.a.begin(), m.a.begin() + std::min<size_t>(m.a.size(), 1500)); std::vector<int> vi(v.begin(), v.end());
    w.push_back({"WriteText(std::vector)", [ = ](const std::string & p) { WriteText(v, p); }, [ = ](const std::string & p) { MC_CHECK(ReadText(p) == v, "text vector"); }});
    w.push_back({"WriteText(Vector<int>)", [ = ](const std::string & p) { WriteText(vec<int>(v), p); }, [ = ](const std::string & p) { MC_CHECK(ReadText<int>(p) == vi, "text vector"); }});
    w.push_back({"WriteBinary(vector)", [ = ](const std::string & p) { WriteBinary(v, p); }, [ = ](const std::string & p) { MC_CHECK(ReadBinaryVect(p) == v, "binary vector"); }});
    w.push_back({"WriteBinary(vector<int>)", [ = ](const std::string & p) { WriteBinary(vi, p); }, [ = ](const std::string & p) { MC_CHECK(ReadBinaryVect<int>(p) == vi, "binary vector"); }});
    w.push_back({"WriteBinary(matrix)", [ = ](const std::string & p) { WriteBinary(*s, p); }, [ = ](const std::string & p) { same(ReadBinaryMat(p), m.r, m.c, e, "binary matrix"); }});
    w.push_back({"WriteAdjList", [ = ](const std::string & p) { WriteAdjList(*s, p); }, [ = ](const std::string & p) { same(ReadAdjList(p), b.first, b.second, one, "adjacency list"); }});
    w.push_back({"WriteCooList", [ = ](const std::string & p) { WriteCooList(*s, p); }, [ = ](const std::string & p) { same(ReadCooList(p), b.first, b.second, e, "coordinate list"); }});
    w.push_back({"WriteTable", [ = ](const std::string & p) { WriteTable(*si, p); }, [ = ](const std::string & p) { same(ReadTable(p), m.r, cols, one, "table"); }});
    w.push_back({"WriteCSR", [ = ](const std::string & p) { WriteCSR(*s, p); }, [ = ](const std::string & p) { same(ReadCSR(p), m.r, m.c, e, "CSR"); }});
    w.push_back({"WriteMTX", [ = ](const std::string & p) { WriteMTX(*s, p); }, [ = ](const std::string & p) { same(ReadMTX(p), m.r, m.c, e, "Matrix Market"); }});
    w.push_back({"WriteCooList(int)", [ = ](const std::string & p) { WriteCooList(*si, p); }, [ = ](const std::string & p) { same(ReadCooList<int>(p), b.first, b.second, ei, "coordinate list"); }});
    w.push_back({"WriteMTX(int)", [ = ](const std::string & p) { WriteMTX(*si, p); }, [ = ](const std::string & p) { same(ReadMTX<int>(p), m.r, m.c, ei, "Matrix Market"); }});
    if (is_sym(m))
    {
        w.push_back({"WriteAdjList(symmetric)", [ = ](const std::string & p) { WriteAdjList(*s, p, true); }, [ = ](const std::string & p) { same(ReadAdjList(p, true), b.first, b.second, one, "adjacency list"); }});
        w.push_back({"WriteCooList(symmetric)", [ = ](const std::string & p) { WriteCooList(*s, p, true); }, [ = ](const std::string & p) { same(ReadCooList(p, true), b.first, b.second, e, "coordinate list"); }});
    }
    return w;
}
void limit(rlim_t n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n < l.rlim_max ? n : l.rlim_max; setrlimit(RLIMIT_FSIZE, &l); }
std::string show(mc::Stop s, const std::string& w) { return s == mc::Stop::none ? "reported nothing" : "was stopped by an assertion: " + w; }
}
// every byte at which the device stops accepting data
MC_SCENARIO(refused_at_every_byte, 3)
{
    signal(SIGXFSZ, SIG_IGN);
    int obj = mc::choose(7); auto& ws = writers(obj); const Writer& w = ws[mc::choose((int)ws.size())];
    std::string p = path();
    unlink(p.c_str()); w.write(p); std::string full = get(p); w.verify(p);
    std::vector<size_t> at; size_t n = full.size();
    for (size_t k = 0; k <= n; ++k) { if (n <= 600 || k <= 20 || n - k <= 20 || (k + 2) % 1024 <= 4 || (mc::thorough() && k % 61 == 0)) { at.push_back(k); } }
    size_t k = at[mc::choose((int)at.size())]; int before = mc::choose(2);
    if (before) { put(p, std::string(7, 'z')); } else { unlink(p.c_str()); }
    std::string what; limit(k);
    mc::Stop st; try { st = mc::guarded([&] { w.write(p); }, &what); } catch (...) { limit(RLIM_INFINITY); throw; }
    limit(RLIM_INFINITY);
    mc::state(mc::Hash().u(obj).s(w.name).u(k).u(before));
    if (k < n) { MC_CHECK(st == mc::Stop::exception, w.name, ": the storage took only ", k, " of ", n, " bytes and the writer ", show(st, what)); }
    else { MC_CHECK(st == mc::Stop::none, w.name, ": the storage took everything and the writer failed: ", what); MC_CHECK(get(p) == full, w.name, ": file differs"); }
    // the failure leaves nothing behind that disturbs the next write
    w.write(p); MC_CHECK(get(p) == full, w.name, ": writing again gives another file"); w.verify(p);
    MC_STEP(w.name, " of object ", obj, " refused after ", k, " of ", n, " bytes");
}
MC_SCENARIO(full_device, 3)
{
    int obj = mc::choose(7); auto& ws = writers(obj); const Writer& w = ws[mc::choose((int)ws.size())];
    std::string p = path(); w.write(p); if (get(p).empty()) { mc::prune(); }
    std::string what; auto st = mc::guarded([&] { w.write("/dev/full"); }, &what);
    MC_CHECK(st == mc::Stop::exception, w.name, ": the device is full and the writer ", show(st, what));
    mc::state(mc::Hash().u(obj).s(w.name)); MC_STEP(w.name, " to a full device");
}
MC_SCENARIO(not_creatable, 3)
{
    int obj = mc::choose(3); auto& ws = writers(obj); const Writer& w = ws[mc::choose((int)ws.size())]; int how = mc::choose(3);
    std::string p = how == 0 ? path("no/such/dir") : how == 1 ? mc::scratch() : path("plain") + "/x"; if (how == 2) { put(path("plain"), "1"); }
    std::string what; auto st = mc::guarded([&] { w.write(p); }, &what);
    MC_CHECK(st == mc::Stop::exception, w.name, ": the file cannot be created and the writer ", show(st, what));
    mc::state(mc::Hash().u(obj).s(w.name).u(how)); MC_STEP(w.name, " to ", how == 0 ? "a missing directory" : how == 1 ? "a directory" : "a path through a file");
}

// C21: every small graph, part count and option, with the real METIS and with a stand-in that answers every labeling
// METIS might give (and records what it was asked).
#include "part.hpp"
using namespace part;
namespace
{
struct Ask { bool seen = false; int n, k, contig, numbering; double ub; std::vector<std::vector<std::pair<int, long>>> adj; bool weights; } ask;
int mode = 0;                               // 0 real METIS, 1 the explorer answers
std::vector<int> answer;
}
extern "C" int __real_METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
extern "C" int __wrap_METIS_PartGraphKway(idx_t* nvtxs, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* edgecut, idx_t* part)
{
    ask = Ask(); ask.seen = true; ask.n = *nvtxs; ask.k = *nparts; ask.contig = options ? options[METIS_OPTION_CONTIG] == 1 : 0; ask.numbering = options ? options[METIS_OPTION_NUMBERING] == 1 : 0; ask.ub = ubvec ? *ubvec : -1; ask.weights = adjwgt != nullptr;
    MC_CHECK(*ncon == 1 && !ask.numbering && xadj[0] == 0, "METIS is called for another numbering or several constraints");
    ask.adj.resize(*nvtxs); for (int i = 0; i < *nvtxs; ++i) for (int k = xadj[i]; k < xadj[i + 1]; ++k) { ask.adj[i].push_back({adjncy[k], adjwgt ? adjwgt[k] : 1}); }
    for (auto& a : ask.adj) { std::sort(a.begin(), a.end()); }
    if (mode == 0)
    {
        int rc = __real_METIS_PartGraphKway(nvtxs, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tpwgts, ubvec, options, edgecut, part);
        if (rc != METIS_OK)                     // refused: only acceptable if METIS refuses the graph itself
        {
            idx_t plain[METIS_NOPTIONS]; METIS_SetDefaultOptions(plain); plain[METIS_OPTION_CONTIG] = ask.contig; idx_t cut; std::vector<idx_t> p(*nvtxs); real_t ub = ask.ub;
            MC_CHECK(__real_METIS_PartGraphKway(nvtxs, ncon, xadj, adjncy, nullptr, nullptr, adjwgt, nparts, nullptr, &ub, plain, &cut, p.data()) != METIS_OK, "METIS refuses the options it is given (code ", rc, ")");
        }
        return rc;
    }
    answer.clear(); for (int i = 0; i < *nvtxs; ++i) { answer.push_back(part[i] = mc::choose(*nparts)); }
    *edgecut = 0; return METIS_OK;
}
namespace
{
// the graph METIS is asked about is the off-diagonal part of the matrix
void asked(const M& m, int k, double ub, bool contig, bool weighted, const std::string& what)
{
    if (!ask.seen)
    {
        bool edges = false; for (int i = 0; i < m.r; ++i) { for (int j = 0; j < i; ++j) { edges = edges || m.s(i, j); } }
        MC_CHECK(k < 2 || k >= m.r || !edges, what, ": METIS is never asked"); return;
    }
    MC_CHECK(ask.n == m.r && ask.k == k, what, ": METIS is asked for ", ask.k, " parts of ", ask.n, " vertices");
    MC_CHECK(ask.contig == contig, what, ": contiguity option ", ask.contig, " instead of ", contig);
    MC_CHECK(std::fabs(ask.ub - ub) < 1e-6, what, ": imbalance ", ask.ub, " instead of ", ub);
    for (int i = 0; i < m.r; ++i)
    {
        std::vector<std::pair<int, long>> w; for (int j = 0; j < m.c; ++j) { if (i != j && m.s(i, j)) { w.push_back({j, weighted ? (long)std::fabs(m(i, j)) : 1}); } }
        MC_CHECK(ask.adj[i] == w, what, ": METIS is given other neighbours or weights for vertex ", i, " than the graph has");
    }
}
template <typename T> std::vector<int> call(const M& m, int order, int k, double ub, bool contig, bool weighted, int form, const std::string& what)
{
    auto s = sparse<T>(m, order), before = s; ask.seen = false; std::vector<int> p; std::string why;
    auto st = mc::guarded([&]
    {
        switch (form)                       // fewer arguments when the rest are the defaults
        {
        case 0: p = Partition(s, k, ub, contig, weighted); break;
        case 1: p = Partition(s, k, ub, contig); break;
        case 2: p = Partition(s, k, ub); break;
        case 3: p = Partition(s, k); break;
        default: p = Partition(s);
        }
    }, &why);
    MC_CHECK(st == mc::Stop::none, what, ": stopped by ", why);
    MC_CHECK(s.GetIndptr() == before.GetIndptr() && s.GetIndices() == before.GetIndices() && s.GetData() == before.GetData(), what, ": the graph was changed");
    valid(p, m.r, k, what); asked(m, k, ub, contig, weighted, what);
    if (k == 1) { for (int x : p) { MC_CHECK(x == 0, what, ": one part"); } }
    return p;
}
std::vector<int> call(bool integer, const M& m, int order, int k, double ub, bool contig, bool weighted, int form, const std::string& what)
{ return integer ? call<int>(m, order, k, ub, contig, weighted, form, what) : call<double>(m, order, k, ub, contig, weighted, form, what); }
void with_metis(const M& m, int order, int k, double ub, bool contig, bool weighted, bool integer, int form)
{
    mode = 0; std::string what = mc::S(m.r <= 8 ? m.str() : mc::S(m.r, " vertices"), " in ", k, " parts, imbalance ", ub, contig ? ", contiguous" : "", weighted ? ", weighted" : "");
    auto p = call(integer, m, order, k, ub, contig, weighted, form, what);
    auto again = call(integer, m, order, k, ub, contig, weighted, form, what); MC_CHECK(again == p, what, ": another answer the second time");
    mc::state(mc::Hash().u(m.hash()).u(order).u(k).d(ub).u(contig).u(weighted)); MC_STEP(what, " -> ", list(p));
}
M choose_graph(int n)
{
    M m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (mc::flag()) { double w = 1 + (i * 3 + j * 5) % 7; if ((i + j) % 2) { w = -w; } m.set(i, j, w); m.set(j, i, w); } }
    int diag = mc::choose(3); for (int i = 0; i < n; ++i) { if (diag == 1 || (diag == 2 && i % 2)) { double d = 0; for (int j = 0; j < n; ++j) { d += m.s(i, j) && j != i; } m.set(i, i, d); } }
    return m;
}
M graph_family(int f, int n)
{
    M m(n, n); auto e = [&](int i, int j) { if (i >= 0 && j >= 0 && i < n && j < n && i != j) { double w = -(1 + (i + j) % 4); m.set(i, j, w); m.set(j, i, w); } };
    int s = std::max(2, (int)std::sqrt((double)n));
    for (int i = 0; i < n; ++i)
    {
        switch (f)
        {
        case 0: e(i, i + 1); break;                                            // path
        case 1: e(i, (i + 1) % n); break;                                      // cycle
        case 2: e(0, i); break;                                                // star
        case 3: if ((i + 1) % s) { e(i, i + 1); } e(i, i + s); break;          // grid
        case 4: for (int j = 0; j < i; ++j) { e(i, j); } break;                // complete
        case 5: e(i, 2 * i + 1); e(i, 2 * i + 2); break;                       // tree
        case 6: if (i != n / 2) { e(i, i + 1); } break;                        // two paths
        case 7: if (i % 3 == 0) { e(i, i + 1); } break;                        // pairs and isolated vertices
        case 8: break;                                                         // no edges
        default: for (int j = 1; j < 4; ++j) { e(i, i + j); }                  // banded
        }
        if (f % 2) { m.set(i, i, 4); }
    }
    return m;
}
const int NGRAPH = 10;
}
MC_SCENARIO(small_graphs, 7)
{
    int n = 1 + mc::choose(mc::thorough() ? 5 : 4); M m = choose_graph(n); int k = 1 + mc::choose(n); bool contig = mc::flag(), weighted = mc::flag(); double ub = mc::pick({1.0, 1.05, 2.0});
    if (n == 5 && (ub == 1.05)) { mc::prune(); }
    with_metis(m, mc::choose(n >= 4 ? 1 : 3), k, ub, contig, weighted, n < 5 && mc::flag(), 0);
}
MC_SCENARIO(graph_families, 4)
{
    std::vector<int> S = mc::thorough() ? std::vector<int>{5, 6, 9, 16, 33, 64, 100, 257} : std::vector<int>{6, 9, 33, 100};
    int f = mc::choose(NGRAPH), n = mc::pick(S); M m = graph_family(f, n); std::vector<int> K = {1, 2, 3, n / 2, n - 1, n}; int k = mc::pick(K);
    bool contig = mc::flag(), weighted = mc::flag(); double ub = mc::pick({1.0, 1.2, 2.0}); with_metis(m, mc::choose(2), k, ub, contig, weighted, mc::flag(), 0);
}
MC_SCENARIO(large_graphs, 3)
{
    int f = mc::choose(NGRAPH), n = mc::pick({600, 1030, 2100}); if (f == 4) { n /= 6; } if (!mc::thorough() && n > 2000 && f % 3) { mc::prune(); } M m = graph_family(f, n); std::vector<int> K = {2, 17, 130, n / 3}; int k = mc::pick(K); if (k > n) { mc::prune(); }
    bool contig = mc::flag(), weighted = mc::flag(); with_metis(m, 0, k, contig ? 2.0 : 1.2, contig, weighted, weighted, 0);
}
// the calls with fewer arguments mean the documented defaults
MC_SCENARIO(default_arguments, 3)
{
    int f = mc::choose(NGRAPH), n = mc::pick({4, 9, 30}), form = 1 + mc::choose(4); bool integer = mc::flag(); M m = graph_family(f, n);
    int k = form == 4 ? 2 : 3; double ub = form <= 2 ? 1.5 : 1.0; bool contig = form == 1 ? mc::flag() : true;
    with_metis(m, 0, k, ub, contig, false, integer, form);
}
// every answer the partitioner may give: the result groups the vertices the same way, with labels 0..m-1
MC_SCENARIO(every_answer, 5)
{
    int n = 1 + mc::choose(mc::thorough() ? 6 : 5), k = 1 + mc::choose(n); if (n == 6 && k > 4) { mc::prune(); }
    M m = graph_family(mc::choose(2) ? 7 : 4, n); mode = 1; answer.clear(); std::string what = mc::S(n, " vertices, ", k, " parts");
    auto p = call(mc::flag(), m, 0, k, 1.5, true, false, 0, what); mode = 0;
    if (!ask.seen) { answer.assign(n, 0); }
    MC_CHECK(same_groups(p, answer), what, ": the partitioner answered ", list(answer), " and the labels are ", list(p));
    mc::state(mc::Hash().u(m.hash()).u(k).c(answer)); MC_STEP(what, " answered ", list(answer));
}
// MakeAdjacencyInfo on its own, in several index types
MC_SCENARIO(adjacency, 4)
{
    int n = 1 + mc::choose(4); M m = choose_graph(n); bool weighted = mc::flag(), given = mc::flag(); int order = mc::choose(3);
    auto check = [&](const auto & t, const std::string & what)
    {
        auto& ip = std::get<0>(t); auto& ix = std::get<1>(t); auto& d = std::get<2>(t);
        MC_CHECK((int)ip.size() == n + 1 && ip[0] == 0 && (size_t)ip[n] == ix.size() && ix.size() == d.size(), what, ": row pointer");
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::pair<int, double>> g, w; for (int k = ip[i]; k < ip[i + 1]; ++k) { g.push_back({(int)ix[k], (double)d[k]}); } std::sort(g.begin(), g.end());
            for (int j = 0; j < n; ++j) { if (i != j && m.s(i, j)) { w.push_back({j, weighted ? std::fabs(m(i, j)) : 1.0}); } }
            MC_CHECK(g == w, what, ": neighbours of vertex ", i, " of ", m.str());
        }
    };
    std::string why; auto st = mc::guarded([&]
    {
        if (weighted || given)
        {
            check(MakeAdjacencyInfo<double, int>(sparse(m, order), weighted), "int from double"); check(MakeAdjacencyInfo<int, int>(sparse<int>(m, order), weighted), "int from int");
            check(MakeAdjacencyInfo<double, long>(sparse(m, order), weighted), "long from double"); check(MakeAdjacencyInfo<int, idx_t>(sparse<int>(m, order), weighted), "idx_t from int");
        }
        else { check(MakeAdjacencyInfo<double, int>(sparse(m, order)), "int from double"); check(MakeAdjacencyInfo<int, long>(sparse<int>(m, order)), "long from int"); }
    }, &why);
    MC_CHECK(st == mc::Stop::none, m.str(), ": stopped by ", why); mc::state(mc::Hash().u(m.hash()).u(weighted).u(order)); MC_STEP(m.str());
}
// every sequence of partitioning calls: earlier calls do not influence later ones
MC_SCENARIO(call_sequences, 2)
{
    struct C { int f, n, k; double ub; bool contig, weighted; }; static const std::vector<C> cs = {{3, 16, 4, 1.0, true, false}, {4, 6, 2, 1.5, false, true}, {7, 9, 3, 1.2, false, false}, {0, 20, 5, 1.05, true, true}, {1, 12, 1, 1, true, false}, {2, 8, 8, 2, true, false}};
    static std::map<int, std::vector<int>> first; int depth = mc::thorough() ? 4 : 3; mode = 0;
    for (int s = 0; s < depth; ++s)
    {
        int i = mc::choose((int)cs.size()); auto& c = cs[i]; M m = graph_family(c.f, c.n); auto p = call<double>(m, 0, c.k, c.ub, c.contig, c.weighted, 0, mc::S("call ", i));
        if (!first.count(i)) { first[i] = p; } MC_CHECK(first[i] == p, "call ", i, " answers ", list(p), " after other calls, ", list(first[i]), " before"); mc::state(mc::Hash().u(i).u(s)); MC_STEP("call ", i);
    }
}

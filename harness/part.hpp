// Shared by C21/C22: graphs, a reference compaction, and a stand-in that can answer for METIS.
#ifndef PART_HPP
#define PART_HPP
#include "lin.hpp"
#include "partition.hpp"
namespace part
{
using namespace lin;
inline std::string list(const std::vector<int>& v) { return mc::S(v); }
// labels are exactly 0..m-1 with m <= k
inline void valid(const std::vector<int>& p, int n, int k, const std::string& what)
{
    MC_CHECK((int)p.size() == n, what, ": ", p.size(), " labels for ", n, " vertices");
    std::vector<int> count; for (int x : p) { MC_CHECK(x >= 0 && x < k, what, ": label ", x, " with ", k, " parts requested"); if (x >= (int)count.size()) { count.resize(x + 1); } ++count[x]; }
    for (size_t i = 0; i < count.size(); ++i) { MC_CHECK(count[i] > 0, what, ": label ", i, " is unused but a larger one is: ", list(p)); }
}
inline bool same_groups(const std::vector<int>& a, const std::vector<int>& b)
{
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) { if ((a[i] == a[j]) != (b[i] == b[j])) { return false; } }
    return true;
}
}
#endif

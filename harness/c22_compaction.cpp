// C22: every label vector up to a length, and structured long ones, through RemoveEmpty.
#include "part.hpp"
#include <map>
using namespace part;
namespace
{
void check(const std::vector<int>& in)
{
    std::vector<int> p = in; std::string what = in.size() < 30 ? "labels " + list(in) : mc::S(in.size(), " labels");
    RemoveEmpty(p);
    std::map<int, int> rank; for (int x : in) { rank[x]; } int m = 0; for (auto& x : rank) { x.second = m++; }
    MC_CHECK(p.size() == in.size(), what, ": length became ", p.size());
    for (size_t i = 0; i < in.size(); ++i) { MC_CHECK(p[i] == rank[in[i]], what, ": position ", i, " (label ", in[i], ") became ", p[i], ", expected ", rank[in[i]]); }
    std::vector<int> q = p; RemoveEmpty(q); MC_CHECK(q == p, what, ": compacting again changed the labels");
    MC_CHECK(*std::max_element(p.begin(), p.end()) + 1 == (int)rank.size(), what, ": largest label");
    mc::state(mc::Hash().c(in)); MC_STEP(what);
}
}
MC_SCENARIO(short_vectors, 4)
{
    int n = 1 + mc::choose(mc::thorough() ? 7 : 6), k = mc::pick(n <= 5 ? std::vector<int>{7} : std::vector<int>{n == 6 ? 6 : 5}); std::vector<int> v(n); for (int& x : v) { x = mc::choose(k); }
    check(v);
}
// which labels occur (any subset of 0..11), in several orders and multiplicities
MC_SCENARIO(label_sets, 4)
{
    std::vector<int> s; int top = mc::thorough() ? 14 : 12; for (int i = 0; i < top; ++i) { if (mc::flag()) { s.push_back(i); } } if (s.empty()) { mc::prune(); }
    int order = mc::choose(4); std::vector<int> v = s;
    if (order == 1) { std::reverse(v.begin(), v.end()); } if (order == 2) { v.insert(v.end(), s.begin(), s.end()); } if (order == 3) { v.clear(); for (size_t i = 0; i < s.size(); ++i) { for (size_t k = 0; k <= i % 3; ++k) { v.push_back(s[(i * 5 + 3) % s.size()]); } } }
    check(v);
}
MC_SCENARIO(gaps, 3)
{
    int first = mc::pick({0, 1, 63, 64, 1000, 1000000}), gap = mc::pick({1, 2, 31, 32, 255, 65536}), count = mc::pick({1, 2, 3, 64, 300, 5000}), order = mc::choose(3); std::vector<int> v;
    for (int i = 0; i < count; ++i) { v.push_back(first + gap * (order == 0 ? i : order == 1 ? count - 1 - i : (i * 7) % count)); }
    if (count == 5000 && gap > 255) { mc::prune(); }
    if (order == 2) { v.push_back(v[0]); v.push_back(first); }
    check(v);
}
// how often a label occurs: counts at which a narrow counter would wrap
MC_SCENARIO(multiplicities, 3)
{
    int often = mc::pick(mc::thorough() ? std::vector<int>{1, 2, 127, 128, 255, 256, 257, 511, 512, 768, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20} : std::vector<int>{1, 127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 131072}), label = mc::pick({0, 1, 3, 255, 256}), others = mc::choose(4), order = mc::choose(3); std::vector<int> v;
    auto add = [&] { for (int i = 0; i < often; ++i) { v.push_back(label); if (order == 2 && others && i < 3 * others) { v.push_back(label + 2 + i % 3); } } };
    if (order == 0) { add(); } for (int k = 0; k < others; ++k) { v.push_back(label + 1 + 2 * k); if (label && k == 1) { v.push_back(label - 1); } } if (order != 0) { add(); }
    if (often % 256 == 0 && others) { for (int i = 0; i < often; ++i) { v.push_back(label + 1); } }
    check(v);
}
// histories: merge a label into another, split, compact, as an agglomeration loop does
MC_SCENARIO(merge_and_compact, 3)
{
    std::vector<int> v = {0, 1, 2, 3, 4}, m = v; int depth = mc::thorough() ? 5 : 4;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::choose(3);
        if (op == 0) { int a = mc::choose(5), b = mc::choose(5); for (int& x : v) { if (x == v[a]) { x = v[b]; } } }
        else if (op == 1) { int a = mc::choose(5); v[a] = *std::max_element(v.begin(), v.end()) + 1 + mc::choose(3); }
        else { std::vector<int> b = v; check(b); RemoveEmpty(v); MC_CHECK(same_groups(v, b), "groups changed: ", b, " to ", v); }
        mc::state(mc::Hash().u(s).c(v)); MC_STEP("operation ", op, " gives ", v);
    }
}

// Ranks of a distributed program as fibers; the explorer picks which of them runs on at every communication.
#ifndef RANKS_HPP
#define RANKS_HPP
#include <functional>
namespace ranks
{
// how the next rank is picked among those that can run
enum Schedule { ascending, descending, alternating, explored, bounded };
// Runs body(rank) on `n` ranks; every rank must finish, no message may be left over, all ranks must agree on every collective call.
void run(int n, Schedule s, const std::function<void(int)>& body);
unsigned long long communications();
}
#endif

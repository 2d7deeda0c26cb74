// Happens-before conflict detection for two threads of instrumented code (gcc -fsanitize=thread, own runtime).
#ifndef RACE_HPP
#define RACE_HPP
#include <functional>
#include <string>
namespace race
{
struct Result { std::string conflict; unsigned long long accesses; std::string error; };
// Runs first in one thread, then second in another (the first one stays alive); no synchronisation orders the two
// except what they do themselves.  A conflict is a pair of accesses to one byte, at least one a write, unordered by
// the code's own locks, atomics and guards: then some interleaving runs them at once.  Without one, every
// interleaving of the two is equivalent to this execution.
Result run(const std::function<void()>& first, const std::function<void()>& second);
}
#endif

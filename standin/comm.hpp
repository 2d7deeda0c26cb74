// What the MPI and hypre stand-ins build on.
#ifndef COMM_HPP
#define COMM_HPP
#include <functional>
#include <string>
#include <vector>
namespace ranks
{
void point();                                       // a communication starts: the explorer may run another rank first
void wait(const std::function<bool()>& ready);
int rank();
int size();
size_t enter(const std::string& what, const void* data, size_t bytes, bool may_differ);
const std::vector<char>& brought(size_t call, int rank);
bool here(size_t call, int rank);
bool complete(size_t call);
const std::vector<int>& arrived(size_t call);       // ranks in the order in which they came
void send(int to, int tag, const void* data, size_t bytes);
std::vector<char> receive(int from, int tag);
}
#endif

// Stand-in for MPI: the ranks are fibers of one process and the explorer decides which of them runs at every communication.
#ifndef STANDIN_MPI_H
#define STANDIN_MPI_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
typedef int MPI_Comm;                       // MPICH's kind: the module compares a communicator with 0
enum MPI_Datatype { MPI_DATATYPE_NULL, MPI_INT, MPI_DOUBLE };
enum MPI_Op { MPI_OP_NULL, MPI_SUM, MPI_MAX, MPI_MIN };
const MPI_Comm MPI_COMM_NULL = 0, MPI_COMM_WORLD = 0x44000000, MPI_COMM_SELF = 0x44000001;
const int MPI_SUCCESS = 0;
namespace MPI { const MPI_Datatype INT = MPI_INT, DOUBLE = MPI_DOUBLE; const MPI_Op SUM = MPI_SUM, MAX = MPI_MAX, MIN = MPI_MIN; }
#define MPI_IN_PLACE ((void*)1)
int MPI_Comm_rank(MPI_Comm, int* rank);
int MPI_Comm_size(MPI_Comm, int* size);
int MPI_Allreduce(const void* in, void* out, int count, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void* in, void* out, int count, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void* in, void* out, int count, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void* in, void* out, int count, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Bcast(void* data, int count, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void* in, int count, MPI_Datatype, void* out, int outcount, MPI_Datatype, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Send(const void* data, int count, MPI_Datatype, int to, int tag, MPI_Comm);
struct MPI_Status { int source, tag; };
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
int MPI_Recv(void* data, int count, MPI_Datatype, int from, int tag, MPI_Comm, MPI_Status*);
#endif

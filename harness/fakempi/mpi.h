// Stand-in for MPI: the ranks are threads of one process (each with its own copy of the library, see checks/c14.py), every
// operation is a scheduling point of mc/. MPI_RANK is given by the compiler command line.
#pragma once
#include <cstddef>
#include <cstdint>
typedef int MPI_Comm; typedef int MPI_Datatype;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int bytes_; };
typedef void* MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request)nullptr)
#define MPI_COMM_WORLD 91
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_STATUSES_IGNORE ((MPI_Status*)nullptr)
#define MPI_UNDEFINED (-32766)
// kind * 16 + size
#define MPI_CHAR 0x101
#define MPI_INT 0x204
#define MPI_INT32_T 0x304
#define MPI_UINT32_T 0x404
#define MPI_UINT64_T 0x508
#define MPI_DOUBLE 0x608
#define MPI_BYTE 0x701
#define MPI_UNSIGNED 0x804
#define MPI_INT64_T 0x908
#define MPI_UNSIGNED_LONG 0xa08
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 64
namespace fakempi {
  void send(int rank, const void* b, int n, int type, int dest, int tag, bool force_sync);
  MPI_Request isend(int rank, const void* b, int n, int type, int dest, int tag, bool force_sync);
  MPI_Request irecv(int rank, void* b, int n, int type, int src, int tag);
  void recv(int rank, void* b, int n, int type, int src, int tag, MPI_Status* st);
  void probe(int rank, int src, int tag, MPI_Status* st);
  int iprobe(int rank, int src, int tag, MPI_Status* st);
  void wait(int rank, MPI_Request* r, MPI_Status* st);
  int test(int rank, MPI_Request* r, MPI_Status* st);
  void bcast(int rank, void* b, int n, int type, int root);
  void barrier(int rank);
  int world();
  int count(const MPI_Status* st, int type);
  // for harnesses
  void reset(int world, bool sync, int thread_level = MPI_THREAD_SERIALIZED);
  void finalize(int rank);
  int undelivered();
}
static inline int MPI_Init_thread(int*, char***, int, int* p) { if (p) *p = MPI_THREAD_SERIALIZED; return 0; }
static inline int MPI_Finalize() { fakempi::finalize(MPI_RANK); return 0; }
static inline int MPI_Comm_size(MPI_Comm, int* s) { *s = fakempi::world(); return 0; }
static inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = MPI_RANK; return 0; }
static inline int MPI_Get_processor_name(char* s, int* n) { s[0] = 'h'; s[1] = 0; *n = 1; return 0; }
static inline int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { fakempi::send(MPI_RANK, b, n, t, d, tag, false); return 0; }
static inline int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { fakempi::send(MPI_RANK, b, n, t, d, tag, true); return 0; }
static inline int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* r) { *r = fakempi::isend(MPI_RANK, b, n, t, d, tag, false); return 0; }
static inline int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request* r) { *r = fakempi::irecv(MPI_RANK, b, n, t, s, tag); return 0; }
static inline int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status* st) { fakempi::recv(MPI_RANK, b, n, t, s, tag, st); return 0; }
static inline int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status* st) { fakempi::probe(MPI_RANK, s, tag, st); return 0; }
static inline int MPI_Iprobe(int s, int tag, MPI_Comm, int* f, MPI_Status* st) { *f = fakempi::iprobe(MPI_RANK, s, tag, st); return 0; }
static inline int MPI_Wait(MPI_Request* r, MPI_Status* st) { fakempi::wait(MPI_RANK, r, st); return 0; }
static inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; ++i) fakempi::wait(MPI_RANK, r + i, st ? st + i : nullptr); return 0; }
static inline int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) { *f = fakempi::test(MPI_RANK, r, st); return 0; }
static inline int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { fakempi::bcast(MPI_RANK, b, n, t, root); return 0; }
static inline int MPI_Barrier(MPI_Comm) { fakempi::barrier(MPI_RANK); return 0; }
static inline int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = fakempi::count(st, t); return 0; }
static inline int MPI_Abort(MPI_Comm, int c) { __builtin_trap(); return c; }

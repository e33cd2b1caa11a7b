// Semantics of harness/fakempi/mpi.h: messages between two ranks do not overtake each other; a send is eager (completes at
// once) or synchronous (completes when it is received); which source a probe of any source finds is a choice of the explorer.
#define MPI_RANK 0
#include "mpi.h"
#include "../mc/mc.hpp"
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <vector>
namespace fakempi {
  // not memcpy, which the race detector observes: messages order the ranks, but their buffers belong to the stand-in
  static void copy(void* d, const void* s, size_t n) { volatile char* a = (volatile char*)d; const char* b = (const char*)s; for (size_t i = 0; i < n; ++i) a[i] = b[i]; }
  struct Bytes { std::unique_ptr<char[]> p; size_t n = 0; void assign(const void* b, size_t k) { n = k; p.reset(k ? new char[k] : nullptr); copy(p.get(), b, k); } size_t size() const { return n; } const char* data() const { return p.get(); } };
  struct Msg { int src, tag, type; Bytes data; bool taken = false, sync = false; };
  struct Req { bool send; int dest; std::shared_ptr<Msg> m; const void* buf; const Msg* unused; void* rbuf; int n, type, src, tag; };
  struct Coll { char kind; int root, bytes, type, arrived = 0, left = 0; std::shared_ptr<Bytes> data; bool root_in = false; };
  static int W, LEVEL; static bool SYNC; static char box[64], collobj; static std::deque<std::shared_ptr<Msg>> q[64]; static int inside[64], owner[64]; static std::deque<Coll> colls; static int collpos[64], collbase;
  void reset(int w, bool s, int level) { W = w; SYNC = s; LEVEL = level; for (int i = 0; i < 64; ++i) { q[i].clear(); inside[i] = 0; collpos[i] = 0; } colls.clear(); collbase = 0; }
  int world() { return W; }
  static std::string rk(int r) { return "rank " + std::to_string(r); }
  struct In { int r; In(int r_, const char* w) : r(r_) { if (inside[r] && owner[r] != mc::self() && LEVEL < MPI_THREAD_MULTIPLE) mc::fail("mpi-thread-level", "two threads of " + rk(r) + " are in MPI functions at the same time (" + w + "), which MPI_THREAD_SERIALIZED forbids"); ++inside[r]; owner[r] = mc::self(); } ~In() { --inside[r]; } };
  static int size(int type) { return type & 15; }
  static void check(int rank, int n, int type, int peer) { if (n < 0 || peer < 0 || peer >= W || peer == rank) mc::fail("mpi-argument", rk(rank) + ": count " + std::to_string(n) + ", peer " + std::to_string(peer)); if (!size(type)) mc::fail("mpi-argument", "unknown data type"); }
  static bool matches(const Msg& m, int src, int tag) { return (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag); }
  // the first matching message of every source
  static std::vector<size_t> find(int rank, int src, int tag) { std::vector<size_t> r; std::vector<bool> seen(W); for (size_t i = 0; i < q[rank].size(); ++i) { auto& m = *q[rank][i]; if (!matches(m, src, tag) || seen[m.src]) continue; seen[m.src] = true; r.push_back(i); } return r; }
  static void fill(MPI_Status* st, const Msg& m) { if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->bytes_ = (int)m.data.size(); } }
  static std::shared_ptr<Msg> post(int rank, const void* b, int n, int type, int dest, int tag, bool sync) { check(rank, n, type, dest); mc::point("mpi-send", &box[dest]); auto m = std::make_shared<Msg>(); m->src = rank; m->tag = tag; m->type = type; m->sync = SYNC || sync; m->data.assign(b, (size_t)n * size(type)); q[dest].push_back(m); return m; }
  static void take(int rank, void* b, int n, int type, int src, int tag, MPI_Status* st) {
    auto f = find(rank, src, tag); size_t i = f[f.size() > 1 ? (size_t)mc::choose((int)f.size(), "source", 0) : 0]; auto m = q[rank][i]; q[rank].erase(q[rank].begin() + i); m->taken = true;
    if (m->type != type) mc::fail("mpi-type", rk(rank) + " receives data of another type than " + rk(m->src) + " has sent"); if (m->data.size() > (size_t)n * size(type)) mc::fail("mpi-truncate", rk(rank) + " receives " + std::to_string(m->data.size()) + " bytes into a buffer of " + std::to_string((size_t)n * size(type)));
    copy(b, m->data.data(), m->data.size()); fill(st, *m); }
  void send(int rank, const void* b, int n, int type, int dest, int tag, bool sync) { In in(rank, "MPI_Send"); auto m = post(rank, b, n, type, dest, tag, sync); if (m->sync) mc::block_until([m] { return m->taken; }, "MPI_Send", &box[dest]); }
  MPI_Request isend(int rank, const void* b, int n, int type, int dest, int tag, bool sync) { In in(rank, "MPI_Isend"); auto m = post(rank, b, n, type, dest, tag, sync); Req* r = new Req(); r->send = true; r->dest = dest; r->m = m; r->buf = b; return r; }
  MPI_Request irecv(int rank, void* b, int n, int type, int src, int tag) { In in(rank, "MPI_Irecv"); Req* r = new Req(); r->send = false; r->rbuf = b; r->n = n; r->type = type; r->src = src; r->tag = tag; return r; }
  void recv(int rank, void* b, int n, int type, int src, int tag, MPI_Status* st) { In in(rank, "MPI_Recv"); if (src != MPI_ANY_SOURCE) check(rank, n, type, src); mc::block_until([=] { return !find(rank, src, tag).empty(); }, "MPI_Recv", &box[rank]); take(rank, b, n, type, src, tag, st); }
  void probe(int rank, int src, int tag, MPI_Status* st) { In in(rank, "MPI_Probe"); mc::block_until([=] { return !find(rank, src, tag).empty(); }, "MPI_Probe", &box[rank]); auto f = find(rank, src, tag); fill(st, *q[rank][f[f.size() > 1 ? (size_t)mc::choose((int)f.size(), "source", 0) : 0]]); }
  int iprobe(int rank, int src, int tag, MPI_Status* st) { bool yes; { In in(rank, "MPI_Iprobe"); mc::point("MPI_Iprobe", &box[rank]); auto f = find(rank, src, tag); yes = !f.empty(); if (yes) fill(st, *q[rank][f[f.size() > 1 ? (size_t)mc::choose((int)f.size(), "source", 0) : 0]]); } if (!yes) mc::yield_point(); return yes; }
  static void finish(int rank, Req* r, MPI_Status* st) { if (r->send) { if (r->m->data.size() && memcmp(r->m->data.data(), r->buf, r->m->data.size())) mc::fail("mpi-buffer", rk(rank) + " changes the buffer of a message before it is sent"); } else take(rank, r->rbuf, r->n, r->type, r->src, r->tag, st); delete r; }
  void wait(int rank, MPI_Request* rr, MPI_Status* st) { In in(rank, "MPI_Wait"); Req* r = (Req*)*rr; if (!r) return; if (r->send) { auto m = r->m; if (m->sync) mc::block_until([m] { return m->taken; }, "MPI_Wait", &box[r->dest]); else mc::point("MPI_Wait", &box[r->dest]); } else mc::block_until([=] { return !find(rank, r->src, r->tag).empty(); }, "MPI_Wait", &box[rank]); finish(rank, r, st); *rr = MPI_REQUEST_NULL; }
  int test(int rank, MPI_Request* rr, MPI_Status* st) { bool yes; { In in(rank, "MPI_Test"); Req* r = (Req*)*rr; if (!r) return 1; mc::point("MPI_Test", r->send ? &box[r->dest] : &box[rank]); yes = r->send ? !r->m->sync || r->m->taken : !find(rank, r->src, r->tag).empty(); if (yes) { finish(rank, r, st); *rr = MPI_REQUEST_NULL; } } if (!yes) mc::yield_point(); return yes; }
  static Coll& enter(int rank, char kind, int root, int bytes, int type) { mc::point(kind == 'B' ? "MPI_Barrier" : "MPI_Bcast", &collobj); int pos = collpos[rank]++ - collbase; while ((int)colls.size() <= pos) { Coll c; c.kind = kind; c.root = root; c.bytes = bytes; c.type = type; colls.push_back(c); } Coll& c = colls[pos]; if (c.kind != kind || c.root != root || c.bytes != bytes || c.type != type) mc::fail("mpi-collective", rk(rank) + " takes part in a different collective operation than the others: " + kind + " root " + std::to_string(root) + " bytes " + std::to_string(bytes) + " instead of " + c.kind + " root " + std::to_string(c.root) + " bytes " + std::to_string(c.bytes)); ++c.arrived; return c; }
  static void leave() { while (!colls.empty() && colls.front().left == W) { colls.pop_front(); ++collbase; } }
  void bcast(int rank, void* b, int n, int type, int root) { In in(rank, "MPI_Bcast"); if (n < 0) mc::fail("mpi-argument", "negative count"); int pos; { Coll& c = enter(rank, 'C', root, n * size(type), type); pos = collpos[rank] - 1; if (rank == root) { c.data = std::make_shared<Bytes>(); c.data->assign(b, c.bytes); c.root_in = true; } }
    if (rank == root) { if (SYNC) mc::block_until([=] { return colls[pos - collbase].arrived == W; }, "MPI_Bcast", &collobj); } else mc::block_until([=] { return colls[pos - collbase].root_in; }, "MPI_Bcast", &collobj);
    Coll& c = colls[pos - collbase]; if (rank != root) copy(b, c.data->data(), c.data->size()); ++c.left; leave(); }
  void barrier(int rank) { In in(rank, "MPI_Barrier"); enter(rank, 'B', 0, 0, 0); int pos = collpos[rank] - 1; mc::block_until([=] { return colls[pos - collbase].arrived == W; }, "MPI_Barrier", &collobj); ++colls[pos - collbase].left; leave(); }
  void finalize(int rank) { barrier(rank); }
  int count(const MPI_Status* st, int type) { return st->bytes_ % size(type) ? MPI_UNDEFINED : st->bytes_ / size(type); }
  int undelivered() { int r = 0; for (int i = 0; i < W; ++i) r += (int)q[i].size(); return r; }
}

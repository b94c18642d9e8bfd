// Environment stub: MPI between ranks that are fibers of one process. The harness calls kse_mpi::run(size, rank_main).
// Every rank has its own communicator handles (communicator * 16 + rank). Ranks are scheduled round robin and switch at
// blocking calls only; messages may be received from any source in any order that MPI permits (kse_choose).
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "kse.h"
enum MPI_Comm : int {}; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request;
// all ranks share the statics of one process: with equal hashes a map keyed by communicators stays intact when ranks insert while others insert
template <> struct std::hash<MPI_Comm> { std::size_t operator()(MPI_Comm) const { return 0; } };
struct MPI_Status { int MPI_SOURCE = 0, MPI_TAG = 0, MPI_ERROR = 0; long bytes = 0; };
// datatype: size | kind << 16 (0 bytes, 1 signed, 2 unsigned, 3 floating point)
#define KSE_DT(sz, kind) ((int)((sz) | (kind) << 16))
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR KSE_DT(1, 1)
#define MPI_INT8_T KSE_DT(1, 1)
#define MPI_UINT8_T KSE_DT(1, 2)
#define MPI_INT16_T KSE_DT(2, 1)
#define MPI_UINT16_T KSE_DT(2, 2)
#define MPI_INT32_T KSE_DT(4, 1)
#define MPI_UINT32_T KSE_DT(4, 2)
#define MPI_INT64_T KSE_DT(8, 1)
#define MPI_UINT64_T KSE_DT(8, 2)
#define MPI_INT KSE_DT(4, 1)
#define MPI_LONG KSE_DT(8, 1)
#define MPI_UNSIGNED KSE_DT(4, 2)
#define MPI_UNSIGNED_LONG KSE_DT(8, 2)
#define MPI_CXX_BOOL KSE_DT(1, 2)
#define MPI_C_BOOL KSE_DT(1, 2)
#define MPI_FLOAT KSE_DT(4, 3)
#define MPI_DOUBLE KSE_DT(8, 3)
#define MPI_LONG_DOUBLE KSE_DT(16, 0)
#define MPI_FLOAT_INT KSE_DT(8, 0)
#define MPI_DOUBLE_INT KSE_DT(16, 5)
#define MPI_LONG_DOUBLE_INT KSE_DT(32, 0)
#define MPI_LONG_INT KSE_DT(16, 4)
enum { MPI_SUM = 1, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_MINLOC, MPI_MAXLOC };
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_NULL ((MPI_Comm)-1)
#define MPI_COMM_WORLD (kse_mpi::world())
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_THREAD_FUNNELED 1
namespace kse_mpi {
inline int SIZE = 1;
struct Msg { int src, tag; std::vector<char> data; };
struct Rec { const void *sb; void *rb; const int *sc, *sd, *rc, *rd; int n, m, st, rt, op, root; int color, key, newcomm; };
struct Inst { int kind, in = 0, out = 0, left = 0; volatile int ready = 0, done = 0; std::vector<Rec *> r; };
struct Comm { std::vector<int> w; Inst *cur = nullptr; std::vector<std::deque<Msg>> q; std::vector<volatile int *> wait; };
inline std::vector<Comm> &comms() { static std::vector<Comm> c; return c; }
inline MPI_Comm world() { return (MPI_Comm)(kse_self() < SIZE ? kse_self() : 0); }
inline Comm &C(MPI_Comm c) { kse_assert(c >= 0, "MPI call on a null communicator"); return comms()[c >> 4]; }
inline int rank(MPI_Comm c) { return c & 15; }
inline long sz(int t) { return t & 0xffff; }
inline int kindof(int t) { return t >> 16; }
// enters a collective; fn runs once every rank has arrived, and no rank leaves before all of them are done
template <class F> inline int coll(MPI_Comm comm, int kind, Rec rec, F fn) {
  const int r = rank(comm), n = (int)C(comm).w.size(); Rec *mine = new Rec(rec);
  if (!C(comm).cur) { C(comm).cur = new Inst; C(comm).cur->kind = kind; C(comm).cur->r.assign(n, nullptr); }
  Inst *i = C(comm).cur; kse_assert(i->kind == kind, "all ranks of a communicator call the same collective operation"); i->r[r] = mine;
  if (++i->in == n) { C(comm).cur = nullptr; i->ready = 1; } else kse_block_until(&i->ready);
  fn(*i, r, n, *mine);
  if (++i->out == n) i->done = 1; else kse_block_until(&i->done);
  const int res = mine->newcomm; delete mine; if (++i->left == n) delete i; return res;
}
inline void cpy(void *d, const void *s, long n) { if (n) std::memcpy(d, s, n); }
template <class T> inline T op1(int op, T a, T b) {
  switch (op) { case MPI_SUM: return a + b; case MPI_MIN: return b < a ? b : a; case MPI_MAX: return a < b ? b : a; case MPI_LAND: return a && b; case MPI_LOR: return a || b; default: kse_fail("unknown MPI operation"); } }
template <class T> inline T opi(int op, T a, T b) { // without forks
  switch (op) { case MPI_MIN: return (T)kse_ite64(b < a, (uint64_t)b, (uint64_t)a); case MPI_MAX: return (T)kse_ite64(a < b, (uint64_t)b, (uint64_t)a); case MPI_BAND: return a & b; case MPI_BOR: return a | b; case MPI_LAND: return (a != 0) & (b != 0); case MPI_LOR: return (a != 0) | (b != 0); default: return op1<T>(op, a, b); } }
template <class T> inline void acc(int op, void *d, const void *s, long i) { T &x = ((T *)d)[i]; const T y = ((const T *)s)[i]; if constexpr (std::is_integral_v<T>) x = opi<T>(op, x, y); else x = op1<T>(op, x, y); }
struct LI { long v; int i; }; struct DI { double v; int i; };
template <class T> inline void accl(int op, void *d, const void *s, long i) { T &x = ((T *)d)[i]; const T y = ((const T *)s)[i]; if (op == MPI_MINLOC ? (y.v < x.v || (y.v == x.v && y.i < x.i)) : (y.v > x.v || (y.v == x.v && y.i < x.i))) x = y; }
inline void accn(int op, int t, void *d, const void *s, long n) {
  for (long i = 0; i < n; ++i) switch (t) { case KSE_DT(1, 1): acc<int8_t>(op, d, s, i); break; case KSE_DT(1, 2): acc<uint8_t>(op, d, s, i); break; case KSE_DT(2, 1): acc<int16_t>(op, d, s, i); break; case KSE_DT(2, 2): acc<uint16_t>(op, d, s, i); break; case KSE_DT(4, 1): acc<int32_t>(op, d, s, i); break; case KSE_DT(4, 2): acc<uint32_t>(op, d, s, i); break; case KSE_DT(8, 1): acc<int64_t>(op, d, s, i); break; case KSE_DT(8, 2): acc<uint64_t>(op, d, s, i); break; case KSE_DT(4, 3): acc<float>(op, d, s, i); break; case KSE_DT(8, 3): acc<double>(op, d, s, i); break; case KSE_DT(16, 4): accl<LI>(op, d, s, i); break; case KSE_DT(16, 5): accl<DI>(op, d, s, i); break; default: kse_fail("MPI reduction of a type without arithmetic"); }
}
inline const void *src(const Rec &r) { return r.sb == MPI_IN_PLACE ? r.rb : r.sb; }
inline void same(bool c) { kse_assert(c, "MPI ranks agree on message sizes"); }
template <class F> void run(int size, F f) { // f(comm)
  SIZE = size; comms().clear(); comms().emplace_back(); for (int i = 0; i < size; ++i) comms()[0].w.push_back(i); comms()[0].q.resize(size); comms()[0].wait.resize(size);
  static std::function<void()> *bodies[16]; std::function<void()> body[16]; int ids[16];
  for (int i = 1; i < size; ++i) { body[i] = [&f, i] { f((MPI_Comm)i); }; bodies[i] = &body[i]; ids[i] = kse_spawn([](void *p) { (*(std::function<void()> *)p)(); }, bodies[i]); kse_assert(ids[i] == i, "fiber of rank"); }
  f((MPI_Comm)0); for (int i = 1; i < size; ++i) kse_join(ids[i]);
  for (auto &c : comms()) { kse_assert(!c.cur, "every rank takes part in every collective operation"); for (auto &q : c.q) kse_assert(q.empty(), "every message is received"); }
}
} // namespace kse_mpi
inline int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int)kse_mpi::C(c).w.size(); return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { *r = kse_mpi::rank(c); return 0; }
inline int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *r) { *r = KSE_DT(n * kse_mpi::sz(t), 0); return 0; }
inline int MPI_Type_commit(MPI_Datatype *) { return 0; }
inline int MPI_Barrier(MPI_Comm c) { kse_mpi::coll(c, 1, {}, [](auto &, int, int, auto &) {}); return 0; }
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.rb = b; r.n = n; r.st = t; r.root = root; coll(c, 2, r, [](Inst &i, int me, int, Rec &m) { Rec &s = *i.r[m.root]; same(s.root == m.root && s.n * sz(s.st) == m.n * sz(m.st)); if (me != m.root) cpy(m.rb, s.rb, m.n * sz(m.st)); }); return 0; }
namespace kse_mpi {
// lo..hi-1: the ranks that contribute; results are staged so that in-place operands stay intact until every rank has read them
inline int red(int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.st = t; r.op = op; r.root = root; std::vector<char> out; bool wr = false;
  coll(c, kind, r, [&](Inst &i, int me, int sz_, Rec &m) { int lo = 0, hi = sz_; if (kind == 5) hi = me + 1; if (kind == 6) hi = me; for (int k = 0; k < sz_; ++k) same(i.r[k]->n == m.n && i.r[k]->st == m.st && i.r[k]->op == m.op && i.r[k]->root == m.root); if (hi == lo || (kind == 4 && me != m.root)) return; out.resize(m.n * sz(m.st) + 8); wr = true; auto in = [&](int k) { const Rec &q = *i.r[k]; return src(q); }; cpy(out.data(), in(lo), m.n * sz(m.st)); for (int k = lo + 1; k < hi; ++k) accn(m.op, m.st, out.data(), in(k), m.n); });
  if (wr) cpy(rb, out.data(), n * sz(t)); return 0; }
} // namespace kse_mpi
inline int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return kse_mpi::red(3, sb, rb, n, t, op, 0, c); }
inline int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return kse_mpi::red(4, sb, rb, n, t, op, root, c); }
inline int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return kse_mpi::red(5, sb, rb, n, t, op, 0, c); }
inline int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return kse_mpi::red(6, sb, rb, n, t, op, 0, c); }
inline int MPI_Reduce_scatter(const void *sb, void *rb, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) { std::vector<char> tmp; int me = kse_mpi::rank(c), n = 0, off = 0, sz_; MPI_Comm_size(c, &sz_); for (int i = 0; i < sz_; ++i) { if (i == me) off = n; n += rc[i]; } tmp.resize(n * kse_mpi::sz(t) + 8); kse_mpi::red(3, sb == MPI_IN_PLACE ? rb : sb, tmp.data(), n, t, op, 0, c); kse_mpi::cpy(rb, tmp.data() + off * kse_mpi::sz(t), rc[me] * kse_mpi::sz(t)); return 0; }
inline int MPI_Gather(const void *sb, int n, MPI_Datatype st, void *rb, int m_, MPI_Datatype rt, int root, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.m = m_; r.st = st; r.rt = rt; r.root = root; coll(c, 7, r, [](Inst &i, int me, int n, Rec &m) { same(i.r[0]->root == m.root); if (me == m.root) for (int k = 0; k < n; ++k) { same(i.r[k]->n * sz(i.r[k]->st) == m.m * sz(m.rt)); if (i.r[k]->sb != MPI_IN_PLACE) cpy((char *)m.rb + k * m.m * sz(m.rt), i.r[k]->sb, m.m * sz(m.rt)); } }); return 0; }
inline int MPI_Scatter(const void *sb, int n, MPI_Datatype st, void *rb, int m_, MPI_Datatype rt, int root, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.m = m_; r.st = st; r.rt = rt; r.root = root; coll(c, 8, r, [](Inst &i, int me, int, Rec &m) { Rec &s = *i.r[m.root]; same(s.root == m.root && s.n * sz(s.st) == m.m * sz(m.rt)); cpy(m.rb, (const char *)s.sb + me * m.m * sz(m.rt), m.m * sz(m.rt)); }); return 0; }
inline int MPI_Allgather(const void *sb, int n, MPI_Datatype st, void *rb, int m_, MPI_Datatype rt, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.m = m_; r.st = st; r.rt = rt; coll(c, 9, r, [](Inst &i, int me, int n, Rec &m) { for (int k = 0; k < n; ++k) { const Rec &q = *i.r[k]; const bool ip = q.sb == MPI_IN_PLACE; same(q.m * sz(q.rt) == m.m * sz(m.rt) && (ip || q.n * sz(q.st) == m.m * sz(m.rt))); if (!(ip && k == me)) cpy((char *)m.rb + k * m.m * sz(m.rt), ip ? (const char *)q.rb + k * q.m * sz(q.rt) : q.sb, m.m * sz(m.rt)); } }); return 0; }
inline int MPI_Gatherv(const void *sb, int n, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.rc = rc; r.rd = rd; r.st = st; r.rt = rt; r.root = root; coll(c, 10, r, [](Inst &i, int me, int n, Rec &m) { same(i.r[0]->root == m.root); if (me == m.root) for (int k = 0; k < n; ++k) { if (i.r[k]->sb == MPI_IN_PLACE) continue; same(i.r[k]->n * sz(i.r[k]->st) == m.rc[k] * sz(m.rt)); cpy((char *)m.rb + m.rd[k] * sz(m.rt), i.r[k]->sb, m.rc[k] * sz(m.rt)); } }); return 0; }
inline int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int m_, MPI_Datatype rt, int root, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.sc = sc; r.sd = sd; r.m = m_; r.st = st; r.rt = rt; r.root = root; coll(c, 11, r, [](Inst &i, int me, int, Rec &m) { Rec &s = *i.r[m.root]; same(s.root == m.root && s.sc[me] * sz(s.st) == m.m * sz(m.rt)); cpy(m.rb, (const char *)s.sb + s.sd[me] * sz(s.st), m.m * sz(m.rt)); }); return 0; }
inline int MPI_Allgatherv(const void *sb, int n, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.rc = rc; r.rd = rd; r.st = st; r.rt = rt; coll(c, 12, r, [](Inst &i, int me, int n, Rec &m) { for (int k = 0; k < n; ++k) { const Rec &q = *i.r[k]; const bool ip = q.sb == MPI_IN_PLACE; const long bytes = m.rc[k] * sz(m.rt); same(ip ? q.rc[k] * sz(q.rt) == bytes : q.n * sz(q.st) == bytes); if (!(ip && k == me)) cpy((char *)m.rb + m.rd[k] * sz(m.rt), ip ? (const char *)q.rb + q.rd[k] * sz(q.rt) : q.sb, bytes); } }); return 0; }
inline int MPI_Alltoall(const void *sb, int n, MPI_Datatype st, void *rb, int m_, MPI_Datatype rt, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.rb = rb; r.n = n; r.m = m_; r.st = st; r.rt = rt; kse_assert(sb != MPI_IN_PLACE, "in-place alltoall is not modelled"); coll(c, 13, r, [](Inst &i, int me, int n, Rec &m) { for (int k = 0; k < n; ++k) { same(i.r[k]->n * sz(i.r[k]->st) == m.m * sz(m.rt)); cpy((char *)m.rb + k * m.m * sz(m.rt), (const char *)i.r[k]->sb + me * m.m * sz(m.rt), m.m * sz(m.rt)); } }); return 0; }
inline int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { using namespace kse_mpi; Rec r{}; r.sb = sb; r.sc = sc; r.sd = sd; r.st = st; r.rb = rb; r.rc = rc; r.rd = rd; r.rt = rt; coll(c, 14, r, [](Inst &i, int me, int n, Rec &m) { for (int k = 0; k < n; ++k) { const Rec &q = *i.r[k]; same(q.sc[me] * sz(q.st) == m.rc[k] * sz(m.rt)); cpy((char *)m.rb + m.rd[k] * sz(m.rt), (const char *)q.sb + q.sd[me] * sz(q.st), m.rc[k] * sz(m.rt)); } }); return 0; }
inline int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  using namespace kse_mpi; Rec r{}; r.color = color; r.key = key; r.newcomm = -1;
  *out = (MPI_Comm)coll(c, 15, r, [c](Inst &i, int me, int n, Rec &m) { if (m.newcomm >= 0 || m.color == MPI_UNDEFINED) return; // the first rank of a color creates the communicator
    std::vector<int> mem; for (int k = 0; k < n; ++k) if (i.r[k]->color == m.color) mem.push_back(k); for (std::size_t a = 1; a < mem.size(); ++a) for (std::size_t b = a; b > 0 && i.r[mem[b]]->key < i.r[mem[b - 1]]->key; --b) std::swap(mem[b], mem[b - 1]);
    Comm x; const int id = (int)comms().size(); for (std::size_t a = 0; a < mem.size(); ++a) { x.w.push_back(comms()[c >> 4].w[mem[a]]); i.r[mem[a]]->newcomm = id * 16 + (int)a; } x.q.resize(mem.size()); x.wait.resize(mem.size()); comms().push_back(std::move(x)); });
  return 0; }
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return MPI_Comm_split(c, 0, kse_mpi::rank(c), out); }
inline int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *r) { using namespace kse_mpi; Comm &k = C(c); kse_assert(dest >= 0 && dest < (int)k.w.size() && n >= 0, "message to an existing rank"); Msg m{rank(c), tag, {}}; m.data.resize(n * sz(t)); cpy(m.data.data(), b, n * sz(t)); k.q[dest].push_back(std::move(m)); if (k.wait[dest]) *k.wait[dest] = 1; if (r) *r = 0; return 0; }
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { return MPI_Isend(b, n, t, dest, tag, c, nullptr); }
namespace kse_mpi {
inline int find(MPI_Comm c, int s, int tag) { // the first matching message of a source (any source: chosen)
  for (;;) { std::vector<int> cand; { auto &q = C(c).q[rank(c)]; std::vector<int> seen; for (std::size_t i = 0; i < q.size(); ++i) { if (s >= 0 && q[i].src != s) continue; if (tag >= 0 && q[i].tag != tag) continue; bool dup = false; for (int x : seen) dup = dup || x == q[i].src; if (dup) continue; seen.push_back(q[i].src); cand.push_back((int)i); } }
    if (!cand.empty()) return cand[cand.size() > 1 ? kse_choose("mpi.source", cand.size()) : 0];
    volatile int flag = 0; C(c).wait[rank(c)] = &flag; kse_block_until(&flag); C(c).wait[rank(c)] = nullptr; } }
} // namespace kse_mpi
inline int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { using namespace kse_mpi; Msg &m = C(c).q[rank(c)][find(c, s, tag)]; if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->bytes = (long)m.data.size(); } return 0; }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { using namespace kse_mpi; const int i = find(c, s, tag); auto &q = C(c).q[rank(c)]; Msg m = std::move(q[i]); q.erase(q.begin() + i); kse_assert((long)m.data.size() <= n * sz(t), "a message fits into the receive buffer"); cpy(b, m.data.data(), (long)m.data.size()); if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->bytes = (long)m.data.size(); } return 0; }
inline int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = (int)(st->bytes / kse_mpi::sz(t)); return 0; }
inline int MPI_Wait(MPI_Request *, MPI_Status *) { return 0; }
inline int MPI_Waitall(int, MPI_Request *, MPI_Status *) { return 0; }
inline double MPI_Wtime() { return 0; }

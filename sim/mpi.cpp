// Simulated MPI: the message-passing layer every simulated process talks to.
// Linked in place of the MPI library; the code under test is compiled against the real <mpi.h>.
#include "core.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <algorithm>
#include <memory>
#include <complex>
struct ompi_predefined_communicator_t { char x[16]; };
struct ompi_predefined_datatype_t { char x[16]; };
struct ompi_predefined_errhandler_t { char x[16]; };
struct ompi_predefined_file_t { char x[16]; };
struct ompi_predefined_group_t { char x[16]; };
struct ompi_predefined_info_t { char x[16]; };
struct ompi_predefined_message_t { char x[16]; };
struct ompi_predefined_op_t { char x[16]; };
struct ompi_predefined_request_t { char x[16]; };
struct ompi_predefined_win_t { char x[16]; };
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
extern "C" {
#include "mpi_globals.inc"
int *MPI_UNWEIGHTED_dummy;
}
using namespace sim;

extern "C" { sim_net_t sim_net = {65536, 0, 0, 0, 0}; }

namespace {
// ------------------------------------------------------------------ datatypes
enum Kind { K_NONE, K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_F32, K_F64, K_F80, K_BOOL, K_BYTE, K_DI, K_FI, K_2I };
struct TypeInfo { Kind kind = K_NONE; size_t size = 0; long extent = 0; std::vector<std::pair<long, size_t>> blocks; bool freed = false; };
std::map<const void*, std::shared_ptr<TypeInfo>> &types() { static std::map<const void*, std::shared_ptr<TypeInfo>> m; return m; }
void deft(MPI_Datatype t, Kind k, size_t s) { auto i = std::make_shared<TypeInfo>(); i->kind = k; i->size = s; i->extent = s; i->blocks = {{0, s}}; types()[t] = i; }
void init_types() {
  if (!types().empty()) return;
  deft(MPI_CHAR, K_I8, 1); deft(MPI_SIGNED_CHAR, K_I8, 1); deft(MPI_UNSIGNED_CHAR, K_U8, 1); deft(MPI_BYTE, K_BYTE, 1); deft(MPI_PACKED, K_BYTE, 1);
  deft(MPI_SHORT, K_I16, 2); deft(MPI_UNSIGNED_SHORT, K_U16, 2); deft(MPI_INT, K_I32, 4); deft(MPI_UNSIGNED, K_U32, 4);
  deft(MPI_LONG, K_I64, 8); deft(MPI_UNSIGNED_LONG, K_U64, 8); deft(MPI_LONG_LONG, K_I64, 8); deft(MPI_UNSIGNED_LONG_LONG, K_U64, 8);
  deft(MPI_FLOAT, K_F32, 4); deft(MPI_DOUBLE, K_F64, 8); deft(MPI_LONG_DOUBLE, K_F80, 16);
  deft(MPI_INT8_T, K_I8, 1); deft(MPI_UINT8_T, K_U8, 1); deft(MPI_INT16_T, K_I16, 2); deft(MPI_UINT16_T, K_U16, 2);
  deft(MPI_INT32_T, K_I32, 4); deft(MPI_UINT32_T, K_U32, 4); deft(MPI_INT64_T, K_I64, 8); deft(MPI_UINT64_T, K_U64, 8);
  deft(MPI_C_BOOL, K_BOOL, 1); deft(MPI_CXX_BOOL, K_BOOL, 1); deft(MPI_WCHAR, K_I32, 4); deft(MPI_AINT, K_I64, 8); deft(MPI_OFFSET, K_I64, 8); deft(MPI_COUNT, K_I64, 8);
  deft(MPI_DOUBLE_INT, K_DI, 16); deft(MPI_FLOAT_INT, K_FI, 8); deft(MPI_2INT, K_2I, 8);
}
TypeInfo &ty(MPI_Datatype t, const char *fn) {
  init_types();
  auto i = types().find(t);
  if (i == types().end() || i->second->freed) sim_fail("mpi-misuse", "%s: invalid datatype (process %d)", fn, sim_rank());
  return *i->second;
}
void pack(const void *buf, long count, TypeInfo &t, std::vector<char> &out) {
  if (count <= 0) return;
  out.reserve(out.size() + count * t.size);
  if (t.blocks.size() == 1 && t.blocks[0].first == 0 && (long)t.size == t.extent) { out.insert(out.end(), (const char*)buf, (const char*)buf + count * t.size); return; }
  for (long i = 0; i < count; ++i) for (auto &b : t.blocks) { const char *p = (const char*)buf + i * t.extent + b.first; out.insert(out.end(), p, p + b.second); }
}
void unpack(void *buf, const std::vector<char> &in, TypeInfo &t) {
  size_t o = 0;
  for (long i = 0; o < in.size(); ++i) for (auto &b : t.blocks) { size_t k = std::min(b.second, in.size() - o); memcpy((char*)buf + i * t.extent + b.first, in.data() + o, k); o += k; if (o >= in.size()) break; }
}

// ------------------------------------------------------------------ communicators
struct CommObj;
struct Coll { // one collective operation on a communicator
  std::string sig; int entered = 0, left = 0; std::vector<char> in_set; std::vector<std::vector<char>> data; std::vector<int> order;
  std::vector<char> result; bool computed = false; std::vector<int> ival; std::shared_ptr<void> made;
};
struct CommObj {
  long ctx; std::vector<int> ranks; bool cart = false; std::vector<int> dims, periods;
  std::vector<long> coll_seq; std::map<long, std::shared_ptr<Coll>> colls; std::string name;
  int rank_of(int world) const { for (size_t i = 0; i < ranks.size(); ++i) if (ranks[i] == world) return i; return -1; }
};
struct CommHandle { uint32_t magic = 0xC0111111; std::shared_ptr<CommObj> obj; int owner; bool freed = false; };
struct GroupHandle { uint32_t magic = 0x6E0BBBBB; std::vector<int> ranks; };
std::shared_ptr<CommObj> world; std::vector<std::shared_ptr<CommObj>> selfs;
std::set<CommHandle*> comm_handles; std::set<GroupHandle*> group_handles;
long next_ctx = 1;

std::shared_ptr<CommObj> comm_of(MPI_Comm c, const char *fn) {
  if (sim_rank() < 0) sim_harness_error("%s outside a simulated process", fn);
  if (c == MPI_COMM_WORLD) return world;
  if (c == MPI_COMM_SELF) return selfs[sim_rank()];
  CommHandle *h = (CommHandle*)c;
  if (c == MPI_COMM_NULL || !comm_handles.count(h)) sim_fail("mpi-misuse", "%s: invalid communicator (process %d)", fn, sim_rank());
  if (h->freed) sim_fail("mpi-misuse", "%s: communicator was freed (process %d)", fn, sim_rank());
  if (h->owner != sim_rank()) sim_fail("mpi-misuse", "%s: communicator handle of process %d used by process %d", fn, h->owner, sim_rank());
  return h->obj;
}
MPI_Comm make_handle(std::shared_ptr<CommObj> o) { auto h = new CommHandle; h->obj = o; h->owner = sim_rank(); comm_handles.insert(h); return (MPI_Comm)h; }

// ------------------------------------------------------------------ point-to-point
struct Request {
  uint32_t magic = 0x4E0E5555; bool recv = false, done = false, persistent = false, cancelled = false, freed = false;
  int owner; std::shared_ptr<CommObj> comm; int peer, tag; // peer: comm rank or ANY
  const void *sbuf = nullptr; void *rbuf = nullptr; long count = 0; MPI_Datatype type = 0; size_t cap = 0;
  bool sync = false; MPI_Status st{}; long seq = 0; bool null = false; bool active = true;
};
struct Msg { std::shared_ptr<CommObj> comm; int src, dst; int tag; std::vector<char> data; bool eager; Request *sreq; long seq; size_t bytes; };
std::map<int, std::deque<Msg*>> flight;   // channel = src*64+dst -> messages not yet arrived (FIFO)
std::vector<std::deque<Msg*>> arrived;    // per destination, in arrival order
std::vector<std::deque<Request*>> posted; // per destination, in posting order
std::set<Request*> live_reqs;
long seqno = 0;
int leftover_msgs = 0, leftover_reqs = 0, open_colls = 0, live_comms_n = 0;
bool initialised_flag = true;
std::vector<char> finalized;

size_t bytes_of(long count, MPI_Datatype t, const char *fn) { return count <= 0 ? 0 : count * ty(t, fn).size; }

bool matches(Request *r, Msg *m) {
  return r->comm->ctx == m->comm->ctx && (r->peer == MPI_ANY_SOURCE || r->comm->ranks[r->peer] == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
void complete_recv(Request *r, Msg *m) {
  std::vector<char> late;
  const std::vector<char> *d = &m->data;
  if (!m->eager) { pack(m->sreq->sbuf, m->sreq->count, ty(m->sreq->type, "send"), late); d = &late; m->sreq->done = true; }
  if (d->size() > r->cap) {
    sim_fail("mpi-truncate", "process %d receives a message of %zu bytes from process %d into room for %zu bytes", m->dst, d->size(), m->src, r->cap);
  }
  if (!d->empty()) unpack(r->rbuf, *d, ty(r->type, "recv"));
  r->st.MPI_SOURCE = r->comm->rank_of(m->src); r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = MPI_SUCCESS; r->st._ucount = d->size(); r->st._cancelled = 0;
  r->done = true;
  uint64_t h = 1469598103934665603ull; for (char c : *d) h = (h ^ (unsigned char)c) * 0x100000001b3ull;
  mix(h);
  trace("  message %ld: %d -> %d tag %d, %zu bytes received", m->seq, m->src, m->dst, m->tag, d->size());
  delete m;
}
// A message that arrived: match it with the oldest posted receive that fits.
void arrive(Msg *m) {
  auto &p = posted[m->dst];
  for (auto it = p.begin(); it != p.end(); ++it) if (matches(*it, m)) { Request *r = *it; p.erase(it); complete_recv(r, m); return; }
  arrived[m->dst].push_back(m);
}
// A receive that was posted: match the first arrived message per source; wildcards choose among sources.
bool try_match(Request *r) {
  auto &a = arrived[r->owner];
  std::vector<size_t> cand; std::set<int> seen;
  for (size_t i = 0; i < a.size(); ++i) if (matches(r, a[i]) && !seen.count(a[i]->src)) { cand.push_back(i); seen.insert(a[i]->src); }
  if (cand.empty()) return false;
  size_t k = cand[r->peer == MPI_ANY_SOURCE ? sim_choose(SIM_SCHED, cand.size()) : 0];
  Msg *m = a[k]; a.erase(a.begin() + k);
  complete_recv(r, m);
  return true;
}
void check_peer(std::shared_ptr<CommObj> &c, int peer, bool wild, const char *fn) {
  if (peer == MPI_PROC_NULL || (wild && peer == MPI_ANY_SOURCE)) return;
  if (peer < 0 || peer >= (int)c->ranks.size()) sim_fail("mpi-misuse", "%s: invalid peer %d (process %d, communicator of %zu)", fn, peer, sim_rank(), c->ranks.size());
}
void start_send(Request *r, const char *fn) {
  r->active = true; r->done = false;
  if (r->peer == MPI_PROC_NULL) { r->done = true; return; }
  Msg *m = new Msg; m->comm = r->comm; m->src = r->owner; m->dst = r->comm->ranks[r->peer]; m->tag = r->tag; m->seq = ++seqno; m->sreq = r;
  m->bytes = bytes_of(r->count, r->type, fn);
  m->eager = !r->sync && (long)m->bytes <= sim_net.eager_limit;
  if (m->eager) { pack(r->sbuf, r->count, ty(r->type, fn), m->data); r->done = true; bump(R->faults, "net:buffered-send"); }
  else bump(R->faults, "net:unbuffered-send");
  trace("  message %ld: %d -> %d tag %d, %zu bytes sent (%s) in %s", m->seq, m->src, m->dst, m->tag, m->bytes, m->eager ? "buffered" : "waits for receiver", fn);
  if (sim_net.delay) flight[m->src * 64 + m->dst].push_back(m), bump(R->faults, "net:delayed-delivery");
  else arrive(m);
}
void start_recv(Request *r, const char *fn) {
  r->active = true; r->done = false;
  if (r->peer == MPI_PROC_NULL) { r->done = true; r->st = MPI_Status{}; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.MPI_TAG = MPI_ANY_TAG; return; }
  (void)fn;
  if (!try_match(r)) posted[r->owner].push_back(r);
}
Request *mk(bool recv, const void *sb, void *rb, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, const char *fn, bool sync = false) {
  auto o = comm_of(c, fn); check_peer(o, peer, recv, fn);
  if (count < 0) sim_fail("mpi-misuse", "%s: negative count %d (process %d)", fn, count, sim_rank());
  if (!recv && (tag < 0)) sim_fail("mpi-misuse", "%s: negative tag", fn);
  Request *r = new Request; r->recv = recv; r->owner = sim_rank(); r->comm = o; r->peer = peer; r->tag = tag; r->sbuf = sb; r->rbuf = rb; r->count = count; r->type = t; r->sync = sync; r->seq = ++seqno;
  r->cap = bytes_of(count, t, fn); live_reqs.insert(r);
  return r;
}
void finish(Request *r, MPI_Status *st) {
  if (st) { if (r->recv) *st = r->st; else { memset(st, 0, sizeof *st); } }
  if (r->persistent) { r->active = false; return; }
  live_reqs.erase(r); delete r;
}
Request *req_of(MPI_Request q, const char *fn) {
  Request *r = (Request*)q;
  if (!live_reqs.count(r)) sim_fail("mpi-misuse", "%s: invalid request (process %d)", fn, sim_rank());
  return r;
}
void point(const char *fn) { if (sim_rank() < 0) sim_harness_error("%s outside a simulated process", fn); sim_point(fn); }
void ready(const char *fn) {
  point(fn);
  if (finalized[sim_rank()]) sim_fail("mpi-misuse", "%s after MPI_Finalize (process %d)", fn, sim_rank());
}

// ------------------------------------------------------------------ collectives
struct CollCtx { std::shared_ptr<CommObj> c; std::shared_ptr<Coll> k; int me; long seq; };
CollCtx enter(MPI_Comm comm, const std::string &sig, std::vector<char> mine, const char *fn) {
  auto c = comm_of(comm, fn); int me = c->rank_of(sim_rank());
  if (me < 0) sim_fail("mpi-misuse", "%s: process %d is not a member of the communicator", fn, sim_rank());
  long s = c->coll_seq[me]++;
  auto &k = c->colls[s];
  if (!k) { k = std::make_shared<Coll>(); k->sig = sig; k->data.resize(c->ranks.size()); k->in_set.assign(c->ranks.size(), 0); k->ival.assign(c->ranks.size(), 0); }
  if (k->sig != sig) sim_fail("collective-mismatch", "process %d calls %s while another process of the communicator calls %s", sim_rank(), sig.c_str(), k->sig.c_str());
  k->data[me] = std::move(mine); k->in_set[me] = 1; k->entered++;
  trace("  process %d enters collective %s (#%ld on communicator %ld)", sim_rank(), sig.c_str(), s, c->ctx);
  return {c, k, me, s};
}
void leave(CollCtx &x) { if (++x.k->left == (int)x.c->ranks.size()) x.c->colls.erase(x.seq); }
void wait_all(CollCtx &x, const char *fn) { auto k = x.k; int n = x.c->ranks.size(); wait_until(fn, [k, n] { return k->entered == n; }); }
std::string sigf(const char *fmt, ...) { char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

template<class T> void red1(T *a, const T *b, long n, MPI_Op op, const char *fn) {
  for (long i = 0; i < n; ++i) {
    if (op == MPI_SUM) a[i] = a[i] + b[i]; else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_MAX) a[i] = a[i] < b[i] ? b[i] : a[i]; else if (op == MPI_MIN) a[i] = b[i] < a[i] ? b[i] : a[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i]; else if (op == MPI_LOR) a[i] = a[i] || b[i]; else if (op == MPI_LXOR) a[i] = !a[i] != !b[i];
    else if (op == MPI_REPLACE) a[i] = b[i]; else if (op == MPI_NO_OP) {}
    else if constexpr (std::is_integral<T>::value) {
      if (op == MPI_BAND) a[i] = a[i] & b[i]; else if (op == MPI_BOR) a[i] = a[i] | b[i]; else if (op == MPI_BXOR) a[i] = a[i] ^ b[i];
      else sim_harness_error("%s: unsupported reduction operator", fn);
    } else sim_harness_error("%s: unsupported reduction operator", fn);
  }
}
template<class V> void redloc(char *a, const char *b, long n, MPI_Op op, size_t sz) {
  for (long i = 0; i < n; ++i) {
    V x, y; int ix, iy; memcpy(&x, a + i * sz, sizeof x); memcpy(&y, b + i * sz, sizeof y); memcpy(&ix, a + i * sz + sizeof x, 4); memcpy(&iy, b + i * sz + sizeof y, 4);
    bool take = op == MPI_MAXLOC ? (y > x || (y == x && iy < ix)) : (y < x || (y == x && iy < ix));
    if (take) { memcpy(a + i * sz, b + i * sz, sz); }
  }
}
struct UserOp { MPI_User_function *f; };
std::map<const void*, UserOp> user_ops;
void reduce_into(std::vector<char> &a, const std::vector<char> &b, long n, MPI_Datatype t, MPI_Op op, const char *fn) {
  auto u = user_ops.find(op);
  if (u != user_ops.end()) { int len = n; MPI_Datatype tt = t; u->second.f((void*)b.data(), a.data(), &len, &tt); return; }
  switch (ty(t, fn).kind) {
#define C(K, T) case K: red1((T*)a.data(), (const T*)b.data(), n, op, fn); break;
    C(K_I8, int8_t) C(K_U8, uint8_t) C(K_BYTE, uint8_t) C(K_BOOL, uint8_t) C(K_I16, int16_t) C(K_U16, uint16_t) C(K_I32, int32_t) C(K_U32, uint32_t) C(K_I64, int64_t) C(K_U64, uint64_t) C(K_F32, float) C(K_F64, double) C(K_F80, long double)
#undef C
    case K_DI: redloc<double>(a.data(), b.data(), n, op, 16); break;
    case K_FI: redloc<float>(a.data(), b.data(), n, op, 8); break;
    case K_2I: redloc<int>(a.data(), b.data(), n, op, 8); break;
    default: sim_harness_error("%s: unsupported reduction type", fn);
  }
}
std::string opname(MPI_Op op) {
  if (op == MPI_SUM) return "SUM"; if (op == MPI_MAX) return "MAX"; if (op == MPI_MIN) return "MIN"; if (op == MPI_PROD) return "PROD"; return "op";
}
std::vector<char> combine(Coll &k, int upto, long n, MPI_Datatype t, MPI_Op op, const char *fn, bool any_order) {
  std::vector<int> o; for (int i = 0; i < upto; ++i) o.push_back(i);
  if (any_order && sim_net.reduce_any_order) { for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[sim_choose(SIM_SCHED, i)]); bump(R->faults, "net:reduction-order"); }
  std::vector<char> r = k.data[o[0]];
  for (size_t i = 1; i < o.size(); ++i) reduce_into(r, k.data[o[i]], n, t, op, fn);
  return r;
}
std::vector<char> packed(const void *b, long n, MPI_Datatype t, const char *fn) { std::vector<char> v; if (n > 0) pack(b, n, ty(t, fn), v); return v; }
void put(void *b, const std::vector<char> &v, MPI_Datatype t, const char *fn) { if (!v.empty()) unpack(b, v, ty(t, fn)); }
} // namespace

// ------------------------------------------------------------------ job boundary
namespace sim {
void net_reset(int n) {
  init_types();
  flight.clear(); arrived.assign(n, {}); posted.assign(n, {}); live_reqs.clear(); comm_handles.clear(); group_handles.clear();
  world = std::make_shared<CommObj>(); world->ctx = next_ctx++; for (int i = 0; i < n; ++i) world->ranks.push_back(i); world->coll_seq.assign(n, 0);
  selfs.clear(); for (int i = 0; i < n; ++i) { auto s = std::make_shared<CommObj>(); s->ctx = next_ctx++; s->ranks = {i}; s->coll_seq = {0}; selfs.push_back(s); }
  finalized.assign(n, 0);
}
int net_deliverable(std::vector<int> &ch) { for (auto &f : flight) if (!f.second.empty()) ch.push_back(f.first); return ch.size(); }
void net_deliver(int c) { auto &q = flight[c]; Msg *m = q.front(); q.pop_front(); trace("  deliver message %ld: %d -> %d", m->seq, m->src, m->dst); arrive(m); }
static std::string world_coll_state;
void net_end_of_job() {
  leftover_msgs = 0; for (auto &f : flight) leftover_msgs += f.second.size(); for (auto &a : arrived) leftover_msgs += a.size();
  leftover_reqs = 0; for (auto r : live_reqs) if (!r->done && r->active) leftover_reqs++;
  open_colls = world ? world->colls.size() : 0; live_comms_n = 0;
  std::set<CommObj*> seen;
  for (auto h : comm_handles) { if (!h->freed) live_comms_n++; if (seen.insert(h->obj.get()).second) for (auto &k : h->obj->colls) if (k.second->entered < (int)h->obj->ranks.size()) open_colls++; }
  open_colls = 0;
  if (world) for (auto &k : world->colls) if (k.second->entered < (int)world->ranks.size()) open_colls++;
  for (auto c : seen) for (auto &k : c->colls) if (k.second->entered < (int)c->ranks.size()) open_colls++;
}
}
extern "C" int sim_leftover_messages(void) { return leftover_msgs; }
extern "C" int sim_leftover_requests(void) { return leftover_reqs; }
extern "C" int sim_open_collectives(void) { return open_colls; }
extern "C" int sim_live_comms(void) { return live_comms_n; }

// used by the storage layer: collective call on a communicator, outside the MPI numbering
namespace sim {
struct H5Coll { std::string sig; int entered = 0; std::vector<char> in; };
int comm_size_of(void *c) { return comm_of((MPI_Comm)c, "H5")->ranks.size(); }
long comm_ctx_of(void *c) { return comm_of((MPI_Comm)c, "H5")->ctx; }
std::vector<int> comm_members(void *c) { return comm_of((MPI_Comm)c, "H5")->ranks; }
}

extern "C" {
// ------------------------------------------------------------------ environment
int MPI_Init(int*, char***) { Host h; point("MPI_Init"); return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int *p) { Host h; point("MPI_Init_thread"); if (p) *p = r; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = sim_rank() >= 0 && finalized[sim_rank()]; return MPI_SUCCESS; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Is_thread_main(int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalize(void) { Host h; ready("MPI_Finalize"); auto x = enter(MPI_COMM_WORLD, "MPI_Finalize", {}, "MPI_Finalize"); wait_all(x, "MPI_Finalize"); leave(x); finalized[sim_rank()] = 1; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { sim_job_abort("MPI_Abort(%d)", code); }
double MPI_Wtime(void) { return sim_now(); }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return MPI_SUCCESS; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "simulated"); *l = 9; return MPI_SUCCESS; }
int MPI_Error_class(int e, int *c) { *c = e; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler*) { return MPI_SUCCESS; }
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Pcontrol(int, ...) { return MPI_SUCCESS; }

// ------------------------------------------------------------------ communicators and groups
int MPI_Comm_size(MPI_Comm c, int *s) { Host h; *s = comm_of(c, "MPI_Comm_size")->ranks.size(); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r) { Host h; *r = comm_of(c, "MPI_Comm_rank")->rank_of(sim_rank()); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm *c) {
  Host h; ready("MPI_Comm_free"); comm_of(*c, "MPI_Comm_free");
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) sim_fail("mpi-misuse", "MPI_Comm_free on a predefined communicator");
  ((CommHandle*)*c)->freed = true; *c = MPI_COMM_NULL; return MPI_SUCCESS;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
static std::shared_ptr<CommObj> derive(CollCtx &x, const std::vector<int> &ranks, const std::function<void(CommObj&)> &f) {
  if (!x.k->made) { auto o = std::make_shared<CommObj>(); o->ctx = next_ctx++; o->ranks = ranks; o->coll_seq.assign(ranks.size(), 0); f(*o); x.k->made = o; }
  return std::static_pointer_cast<CommObj>(x.k->made);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { Host h; ready("MPI_Comm_dup"); auto x = enter(c, "MPI_Comm_dup", {}, "MPI_Comm_dup"); wait_all(x, "MPI_Comm_dup");
  auto o = derive(x, x.c->ranks, [&](CommObj &d) { d.cart = x.c->cart; d.dims = x.c->dims; d.periods = x.c->periods; }); leave(x); *n = make_handle(o); return MPI_SUCCESS; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) {
  Host h; ready("MPI_Comm_split"); std::vector<char> d(8); memcpy(d.data(), &color, 4); memcpy(d.data() + 4, &key, 4);
  auto x = enter(c, "MPI_Comm_split", d, "MPI_Comm_split"); wait_all(x, "MPI_Comm_split");
  if (!x.k->made) { // every colour's communicator is made once
    auto m = std::make_shared<std::map<int, std::shared_ptr<CommObj>>>(); std::map<int, std::vector<std::pair<std::pair<int,int>, int>>> g;
    for (size_t i = 0; i < x.c->ranks.size(); ++i) { int co, ke; memcpy(&co, x.k->data[i].data(), 4); memcpy(&ke, x.k->data[i].data() + 4, 4); if (co != MPI_UNDEFINED) g[co].push_back({{ke, (int)i}, x.c->ranks[i]}); }
    for (auto &e : g) { std::sort(e.second.begin(), e.second.end()); auto o = std::make_shared<CommObj>(); o->ctx = next_ctx++; for (auto &p : e.second) o->ranks.push_back(p.second); o->coll_seq.assign(o->ranks.size(), 0); (*m)[e.first] = o; }
    x.k->made = m;
  }
  auto m = std::static_pointer_cast<std::map<int, std::shared_ptr<CommObj>>>(x.k->made); leave(x);
  *n = color == MPI_UNDEFINED ? MPI_COMM_NULL : make_handle((*m)[color]); return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *n) { return MPI_Comm_split(c, 0, key, n); }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { Host h; auto x = comm_of(a, "MPI_Comm_compare"), y = comm_of(b, "MPI_Comm_compare"); *r = x == y ? MPI_IDENT : x->ranks == y->ranks ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm c, const char *n) { Host h; comm_of(c, "MPI_Comm_set_name")->name = n; return MPI_SUCCESS; }
static MPI_Group mkgroup(std::vector<int> r) { auto g = new GroupHandle; g->ranks = std::move(r); group_handles.insert(g); return (MPI_Group)g; }
static GroupHandle *group_of(MPI_Group g, const char *fn) { static GroupHandle e; if (g == MPI_GROUP_EMPTY) return &e; if (!group_handles.count((GroupHandle*)g)) sim_fail("mpi-misuse", "%s: invalid group", fn); return (GroupHandle*)g; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { Host h; *g = mkgroup(comm_of(c, "MPI_Comm_group")->ranks); return MPI_SUCCESS; }
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *o) { Host h; auto G = group_of(g, "MPI_Group_incl"); std::vector<int> v; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)G->ranks.size()) sim_fail("mpi-misuse", "MPI_Group_incl: rank %d", r[i]); v.push_back(G->ranks[r[i]]); } *o = n ? mkgroup(v) : MPI_GROUP_EMPTY; return MPI_SUCCESS; }
int MPI_Group_excl(MPI_Group g, int n, const int r[], MPI_Group *o) { Host h; auto G = group_of(g, "MPI_Group_excl"); std::vector<int> v; for (int i = 0; i < (int)G->ranks.size(); ++i) if (std::find(r, r + n, i) == r + n) v.push_back(G->ranks[i]); *o = mkgroup(v); return MPI_SUCCESS; }
int MPI_Group_size(MPI_Group g, int *s) { Host h; *s = group_of(g, "MPI_Group_size")->ranks.size(); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group g, int *s) { Host h; auto G = group_of(g, "MPI_Group_rank"); *s = MPI_UNDEFINED; for (size_t i = 0; i < G->ranks.size(); ++i) if (G->ranks[i] == sim_rank()) *s = i; return MPI_SUCCESS; }
int MPI_Group_free(MPI_Group *g) { Host h; group_of(*g, "MPI_Group_free"); group_handles.erase((GroupHandle*)*g); *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int r[], MPI_Group b, int o[]) { Host h; auto A = group_of(a, "x"), B = group_of(b, "x"); for (int i = 0; i < n; ++i) { o[i] = MPI_UNDEFINED; for (size_t k = 0; k < B->ranks.size(); ++k) if (B->ranks[k] == A->ranks[r[i]]) o[i] = k; } return MPI_SUCCESS; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) {
  Host h; ready("MPI_Comm_create"); auto G = group_of(g, "MPI_Comm_create"); std::vector<int> rk = G->ranks;
  std::string s = "MPI_Comm_create{"; for (int r : rk) s += std::to_string(r) + ","; s += "}";
  auto x = enter(c, s, {}, "MPI_Comm_create"); wait_all(x, "MPI_Comm_create");
  if (rk.empty()) { leave(x); *n = MPI_COMM_NULL; return MPI_SUCCESS; }
  auto o = derive(x, rk, [](CommObj&) {}); leave(x);
  *n = o->rank_of(sim_rank()) >= 0 ? make_handle(o) : MPI_COMM_NULL; return MPI_SUCCESS;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int, MPI_Comm *n) { return MPI_Comm_create(c, g, n); }

// ------------------------------------------------------------------ topologies
int MPI_Dims_create(int n, int nd, int d[]) {
  int rest = n; for (int i = 0; i < nd; ++i) if (d[i] > 0) rest /= d[i];
  std::vector<int> f; for (int p = 2; rest > 1; ++p) while (rest % p == 0) { f.push_back(p); rest /= p; }
  std::vector<int> v; std::vector<int> idx; for (int i = 0; i < nd; ++i) if (d[i] <= 0) { idx.push_back(i); v.push_back(1); }
  for (int i = (int)f.size() - 1; i >= 0 && !v.empty(); --i) *std::min_element(v.begin(), v.end()) *= f[i];
  std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < idx.size(); ++i) d[idx[i]] = v[i]; return MPI_SUCCESS;
}
int MPI_Cart_create(MPI_Comm c, int nd, const int dims[], const int per[], int reorder, MPI_Comm *n) {
  Host h; ready("MPI_Cart_create"); std::string s = "MPI_Cart_create{"; long prod = 1;
  for (int i = 0; i < nd; ++i) { s += std::to_string(dims[i]) + (per[i] ? "p," : ","); prod *= dims[i]; if (dims[i] <= 0) sim_fail("mpi-misuse", "MPI_Cart_create: dimension %d is %d", i, dims[i]); }
  s += reorder ? "}r" : "}";
  auto x = enter(c, s, {}, "MPI_Cart_create");
  if (prod > (long)x.c->ranks.size()) sim_fail("mpi-misuse", "MPI_Cart_create: %s needs %ld processes, the communicator has %zu", s.c_str(), prod, x.c->ranks.size());
  wait_all(x, "MPI_Cart_create");
  auto o = derive(x, {}, [&](CommObj &d) {
    std::vector<int> rk = x.c->ranks;
    if (reorder && sim_net.reorder) { for (size_t i = rk.size(); i > 1; --i) std::swap(rk[i - 1], rk[sim_choose(SIM_FAULT, i)]); bump(R->faults, "net:process-placement-permuted"); }
    rk.resize(prod); d.ranks = rk; d.coll_seq.assign(prod, 0); d.cart = true; d.dims.assign(dims, dims + nd); d.periods.assign(per, per + nd);
  });
  leave(x);
  *n = o->rank_of(sim_rank()) >= 0 ? make_handle(o) : MPI_COMM_NULL; return MPI_SUCCESS;
}
static void coords_of(CommObj &c, int r, int m, int *co) { int rest = r; for (int i = (int)c.dims.size() - 1; i >= 0; --i) { if (i < m) co[i] = rest % c.dims[i]; rest /= c.dims[i]; } }
static int cart_rank(CommObj &c, const int *co, const char *fn) {
  int r = 0; for (size_t i = 0; i < c.dims.size(); ++i) { int k = co[i]; if (k < 0 || k >= c.dims[i]) { if (!c.periods[i]) { (void)fn; return MPI_PROC_NULL; } k = ((k % c.dims[i]) + c.dims[i]) % c.dims[i]; } r = r * c.dims[i] + k; } return r; }
static std::shared_ptr<CommObj> cart_of(MPI_Comm c, const char *fn) { auto o = comm_of(c, fn); if (!o->cart) sim_fail("mpi-misuse", "%s: communicator has no Cartesian topology", fn); return o; }
int MPI_Cart_coords(MPI_Comm c, int r, int m, int co[]) { Host h; auto o = cart_of(c, "MPI_Cart_coords"); if (r < 0 || r >= (int)o->ranks.size()) sim_fail("mpi-misuse", "MPI_Cart_coords: rank %d", r); coords_of(*o, r, m, co); return MPI_SUCCESS; }
int MPI_Cart_rank(MPI_Comm c, const int co[], int *r) { Host h; auto o = cart_of(c, "MPI_Cart_rank"); *r = cart_rank(*o, co, "MPI_Cart_rank"); return MPI_SUCCESS; }
int MPI_Cart_get(MPI_Comm c, int m, int d[], int p[], int co[]) { Host h; auto o = cart_of(c, "MPI_Cart_get"); for (int i = 0; i < m && i < (int)o->dims.size(); ++i) { d[i] = o->dims[i]; p[i] = o->periods[i]; } coords_of(*o, o->rank_of(sim_rank()), m, co); return MPI_SUCCESS; }
int MPI_Cartdim_get(MPI_Comm c, int *n) { Host h; *n = cart_of(c, "MPI_Cartdim_get")->dims.size(); return MPI_SUCCESS; }
int MPI_Topo_test(MPI_Comm c, int *s) { Host h; *s = comm_of(c, "MPI_Topo_test")->cart ? MPI_CART : MPI_UNDEFINED; return MPI_SUCCESS; }
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *src, int *dst) {
  Host h; auto o = cart_of(c, "MPI_Cart_shift"); if (dir < 0 || dir >= (int)o->dims.size()) sim_fail("mpi-misuse", "MPI_Cart_shift: direction %d", dir);
  std::vector<int> co(o->dims.size()); coords_of(*o, o->rank_of(sim_rank()), co.size(), co.data());
  auto a = co; a[dir] += disp; *dst = cart_rank(*o, a.data(), "shift"); a = co; a[dir] -= disp; *src = cart_rank(*o, a.data(), "shift"); return MPI_SUCCESS;
}
int MPI_Cart_sub(MPI_Comm c, const int rem[], MPI_Comm *n) {
  auto o = [&] { Host h; return cart_of(c, "MPI_Cart_sub"); }(); std::vector<int> co(o->dims.size()); coords_of(*o, o->rank_of(sim_rank()), co.size(), co.data());
  int color = 0, key = 0; std::vector<int> d, p; for (size_t i = 0; i < co.size(); ++i) if (rem[i]) { key = key * o->dims[i] + co[i]; d.push_back(o->dims[i]); p.push_back(o->periods[i]); } else color = color * o->dims[i] + co[i];
  MPI_Comm_split(c, color, key, n); Host h; auto &s = ((CommHandle*)*n)->obj; s->cart = true; s->dims = d; s->periods = p; return MPI_SUCCESS;
}

// ------------------------------------------------------------------ point-to-point API
static void block_on(Request *r, const char *fn) { wait_until(fn, [r] { return r->done; }); }
static int do_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, const char *fn, bool sync) { Host h; ready(fn); Request *r = mk(false, b, 0, n, t, d, tag, c, fn, sync); start_send(r, fn); block_on(r, fn); finish(r, 0); return MPI_SUCCESS; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Send", false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Ssend", true); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, "MPI_Rsend", false); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { long e = sim_net.eager_limit; sim_net.eager_limit = 1L << 40; Host h; ready("MPI_Bsend"); Request *r = mk(false, b, 0, n, t, d, tag, c, "MPI_Bsend"); sim_net.eager_limit = 1L << 40; start_send(r, "MPI_Bsend"); sim_net.eager_limit = e; finish(r, 0); return MPI_SUCCESS; }
int MPI_Buffer_attach(void*, int) { return MPI_SUCCESS; }
int MPI_Buffer_detach(void *b, int *n) { if (b) *(void**)b = 0; if (n) *n = 0; return MPI_SUCCESS; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { Host h; ready("MPI_Recv"); Request *r = mk(true, 0, b, n, t, s, tag, c, "MPI_Recv"); start_recv(r, "MPI_Recv"); block_on(r, "MPI_Recv"); finish(r, st); return MPI_SUCCESS; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  Host h; const char *fn = "MPI_Sendrecv"; ready(fn);
  Request *r = mk(true, 0, rb, rn, rt, s, rtag, c, fn), *q = mk(false, sb, 0, sn, stt, d, stag, c, fn);
  if (sim_choose(SIM_SCHED, 2)) { start_send(q, fn); start_recv(r, fn); } else { start_recv(r, fn); start_send(q, fn); }
  wait_until(fn, [&] { return r->done && q->done; }); finish(q, 0); finish(r, st); return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  std::vector<char> tmp; { Host h; tmp = packed(b, n, t, "MPI_Sendrecv_replace"); }
  return MPI_Sendrecv(tmp.data(), tmp.size(), MPI_BYTE, d, stag, b, n, t, s, rtag, c, st);
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { Host h; ready("MPI_Isend"); Request *r = mk(false, b, 0, n, t, d, tag, c, "MPI_Isend"); start_send(r, "MPI_Isend"); *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { Host h; ready("MPI_Issend"); Request *r = mk(false, b, 0, n, t, d, tag, c, "MPI_Issend", true); start_send(r, "MPI_Issend"); *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { Host h; ready("MPI_Irecv"); Request *r = mk(true, 0, b, n, t, s, tag, c, "MPI_Irecv"); start_recv(r, "MPI_Irecv"); *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { Host h; Request *r = mk(false, b, 0, n, t, d, tag, c, "MPI_Send_init"); r->persistent = true; r->active = false; *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { Host h; Request *r = mk(true, 0, b, n, t, s, tag, c, "MPI_Recv_init"); r->persistent = true; r->active = false; *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Start(MPI_Request *q) { Host h; ready("MPI_Start"); Request *r = req_of(*q, "MPI_Start"); if (r->recv) start_recv(r, "MPI_Start"); else start_send(r, "MPI_Start"); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request q[]) { for (int i = 0; i < n; ++i) MPI_Start(&q[i]); return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request *q) { Host h; Request *r = req_of(*q, "MPI_Request_free"); live_reqs.erase(r); *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
static void fin(MPI_Request *q, Request *r, MPI_Status *st) { bool p = r->persistent; finish(r, st); if (!p) *q = MPI_REQUEST_NULL; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { Host h; ready("MPI_Wait"); if (*q == MPI_REQUEST_NULL) { if (st) memset(st, 0, sizeof *st); return MPI_SUCCESS; } Request *r = req_of(*q, "MPI_Wait"); if (r->active) block_on(r, "MPI_Wait"); fin(q, r, st); return MPI_SUCCESS; }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) {
  Host h; ready("MPI_Waitall");
  wait_until("MPI_Waitall", [&] { for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) { Request *r = req_of(q[i], "MPI_Waitall"); if (r->active && !r->done) return false; } return true; });
  for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) fin(&q[i], (Request*)q[i], st ? &st[i] : 0); return MPI_SUCCESS;
}
static int ready_any(int n, MPI_Request q[], bool &any) { any = false; std::vector<int> d; for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) { any = true; if (((Request*)q[i])->done) d.push_back(i); } return d.empty() ? -1 : d[0]; }
int MPI_Waitany(int n, MPI_Request q[], int *idx, MPI_Status *st) {
  Host h; ready("MPI_Waitany"); bool any; ready_any(n, q, any); if (!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  wait_until("MPI_Waitany", [&] { bool a; return ready_any(n, q, a) >= 0; });
  std::vector<int> d; for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL && ((Request*)q[i])->done) d.push_back(i);
  int k = d[sim_choose(SIM_SCHED, d.size())]; *idx = k; fin(&q[k], (Request*)q[k], st); return MPI_SUCCESS;
}
int MPI_Waitsome(int n, MPI_Request q[], int *cnt, int idx[], MPI_Status st[]) { MPI_Status s; int k; MPI_Waitany(n, q, &k, &s); if (k == MPI_UNDEFINED) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; } *cnt = 1; idx[0] = k; if (st) st[0] = s; return MPI_SUCCESS; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) { Host h; ready("MPI_Test"); if (*q == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; } Request *r = req_of(*q, "MPI_Test"); *flag = r->done || !r->active; if (*flag) fin(q, r, st); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request q[], int *flag, MPI_Status st[]) { Host h; ready("MPI_Testall"); *flag = 1; for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL && !((Request*)q[i])->done) *flag = 0; if (*flag) for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) fin(&q[i], (Request*)q[i], st ? &st[i] : 0); return MPI_SUCCESS; }
int MPI_Testany(int n, MPI_Request q[], int *idx, int *flag, MPI_Status *st) { Host h; ready("MPI_Testany"); bool any; int k = ready_any(n, q, any); if (!any) { *flag = 1; *idx = MPI_UNDEFINED; return MPI_SUCCESS; } *flag = k >= 0; if (k >= 0) { *idx = k; fin(&q[k], (Request*)q[k], st); } return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request*) { return MPI_SUCCESS; }
static Msg *peek(int me, Request &r) { for (Msg *m : arrived[me]) if (matches(&r, m)) return m; return 0; }
static void fill_probe(Request &r, Msg *m, MPI_Status *st) { if (st) { st->MPI_SOURCE = r.comm->rank_of(m->src); st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->bytes; } }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { Host h; ready("MPI_Probe"); Request r; r.comm = comm_of(c, "MPI_Probe"); check_peer(r.comm, s, true, "MPI_Probe"); r.peer = s; r.tag = tag; int me = sim_rank(); wait_until("MPI_Probe", [&] { return peek(me, r) != 0; }); fill_probe(r, peek(me, r), st); return MPI_SUCCESS; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) { Host h; ready("MPI_Iprobe"); Request r; r.comm = comm_of(c, "MPI_Iprobe"); check_peer(r.comm, s, true, "MPI_Iprobe"); r.peer = s; r.tag = tag; Msg *m = peek(sim_rank(), r); *flag = m != 0; if (m) fill_probe(r, m, st); return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { Host h; size_t s = ty(t, "MPI_Get_count").size; *n = s ? st->_ucount / s : 0; return MPI_SUCCESS; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }

// ------------------------------------------------------------------ collectives API
int MPI_Barrier(MPI_Comm c) { Host h; ready("MPI_Barrier"); auto x = enter(c, "MPI_Barrier", {}, "MPI_Barrier"); wait_all(x, "MPI_Barrier"); leave(x); return MPI_SUCCESS; }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  Host h; const char *fn = "MPI_Allreduce"; ready(fn); auto x = enter(c, sigf("MPI_Allreduce(%d items of %zu, %s)", n, ty(t, fn).size, opname(op).c_str()), packed(sb == MPI_IN_PLACE ? rb : sb, n, t, fn), fn);
  wait_all(x, fn); if (!x.k->computed) { x.k->result = combine(*x.k, x.c->ranks.size(), n, t, op, fn, true); x.k->computed = true; }
  put(rb, x.k->result, t, fn); leave(x); return MPI_SUCCESS;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  Host h; const char *fn = "MPI_Reduce"; ready(fn); auto x = enter(c, sigf("MPI_Reduce(%d items of %zu, %s, root %d)", n, ty(t, fn).size, opname(op).c_str(), root), packed(sb == MPI_IN_PLACE ? rb : sb, n, t, fn), fn);
  if (x.me == root || sim_net.strict_collectives) wait_all(x, fn);
  if (x.me == root) put(rb, combine(*x.k, x.c->ranks.size(), n, t, op, fn, true), t, fn); leave(x); return MPI_SUCCESS;
}
static int scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool excl, const char *fn) {
  Host h; ready(fn); auto x = enter(c, sigf("%s(%d,%s)", fn, n, opname(op).c_str()), packed(sb == MPI_IN_PLACE ? rb : sb, n, t, fn), fn); wait_all(x, fn);
  int up = excl ? x.me : x.me + 1; if (up > 0) put(rb, combine(*x.k, up, n, t, op, fn, false), t, fn); leave(x); return MPI_SUCCESS;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(sb, rb, n, t, op, c, false, "MPI_Scan"); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(sb, rb, n, t, op, c, true, "MPI_Exscan"); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  Host h; const char *fn = "MPI_Bcast"; ready(fn); auto cc = comm_of(c, fn); int me = cc->rank_of(sim_rank());
  auto x = enter(c, sigf("MPI_Bcast(%zu bytes, root %d)", bytes_of(n, t, fn), root), me == root ? packed(b, n, t, fn) : std::vector<char>(), fn);
  if (sim_net.strict_collectives) wait_all(x, fn); else if (me != root) { auto k = x.k; wait_until(fn, [k, root] { return k->in_set[root] != 0; }); }
  if (me != root) put(b, x.k->data[root], t, fn); leave(x); return MPI_SUCCESS;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int dp[], MPI_Datatype rt, int root, MPI_Comm c) {
  Host h; const char *fn = "MPI_Gatherv"; ready(fn); auto x = enter(c, sigf("MPI_Gatherv(root %d)", root), sb == MPI_IN_PLACE ? std::vector<char>() : packed(sb, sn, st, fn), fn);
  if (x.me == root || sim_net.strict_collectives) wait_all(x, fn);
  if (x.me == root) for (size_t i = 0; i < x.c->ranks.size(); ++i) { if (sb == MPI_IN_PLACE && (int)i == root) continue; if (x.k->data[i].size() > bytes_of(rn[i], rt, fn)) sim_fail("mpi-truncate", "MPI_Gatherv: process %zu sends %zu bytes", i, x.k->data[i].size()); put((char*)rb + dp[i] * ty(rt, fn).extent, x.k->data[i], rt, fn); }
  leave(x); return MPI_SUCCESS;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  std::vector<int> n, d; { Host h; auto o = comm_of(c, "MPI_Gather"); for (size_t i = 0; i < o->ranks.size(); ++i) { n.push_back(rn); d.push_back(rn * i); } } return MPI_Gatherv(sb, sn, st, rb, n.data(), d.data(), rt, root, c); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rn[], const int dp[], MPI_Datatype rt, MPI_Comm c) {
  Host h; const char *fn = "MPI_Allgatherv"; ready(fn); auto cc = comm_of(c, fn); int me = cc->rank_of(sim_rank());
  auto x = enter(c, "MPI_Allgatherv", sb == MPI_IN_PLACE ? packed((char*)rb + dp[me] * ty(rt, fn).extent, rn[me], rt, fn) : packed(sb, sn, st, fn), fn); wait_all(x, fn);
  for (size_t i = 0; i < x.c->ranks.size(); ++i) { if (x.k->data[i].size() > bytes_of(rn[i], rt, fn)) sim_fail("mpi-truncate", "MPI_Allgatherv: process %zu sends %zu bytes", i, x.k->data[i].size()); put((char*)rb + dp[i] * ty(rt, fn).extent, x.k->data[i], rt, fn); }
  leave(x); return MPI_SUCCESS;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  std::vector<int> n, d; { Host h; auto o = comm_of(c, "MPI_Allgather"); for (size_t i = 0; i < o->ranks.size(); ++i) { n.push_back(rn); d.push_back(rn * i); } } return MPI_Allgatherv(sb, sn, st, rb, n.data(), d.data(), rt, c); }
int MPI_Scatterv(const void *sb, const int sn[], const int dp[], MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  Host h; const char *fn = "MPI_Scatterv"; ready(fn); auto cc = comm_of(c, fn); int me = cc->rank_of(sim_rank()); std::vector<char> all; std::vector<std::vector<char>> parts;
  if (me == root) for (size_t i = 0; i < cc->ranks.size(); ++i) parts.push_back(packed((const char*)sb + dp[i] * ty(st, fn).extent, sn[i], st, fn));
  auto x = enter(c, sigf("MPI_Scatterv(root %d)", root), {}, fn);
  if (me == root) x.k->made = std::make_shared<std::vector<std::vector<char>>>(parts);
  if (sim_net.strict_collectives) wait_all(x, fn); else { auto k = x.k; wait_until(fn, [k, root] { return k->in_set[root] != 0; }); }
  if (rb != MPI_IN_PLACE) { auto &p = *std::static_pointer_cast<std::vector<std::vector<char>>>(x.k->made); if (p[me].size() > bytes_of(rn, rt, fn)) sim_fail("mpi-truncate", "MPI_Scatterv"); put(rb, p[me], rt, fn); }
  leave(x); return MPI_SUCCESS;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  std::vector<int> n, d; { Host h; auto o = comm_of(c, "MPI_Scatter"); for (size_t i = 0; i < o->ranks.size(); ++i) { n.push_back(sn); d.push_back(sn * i); } } return MPI_Scatterv(sb, n.data(), d.data(), st, rb, rn, rt, root, c); }
int MPI_Alltoallv(const void *sb, const int sn[], const int sd[], MPI_Datatype st, void *rb, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c) {
  Host h; const char *fn = "MPI_Alltoallv"; ready(fn); auto cc = comm_of(c, fn); int n = cc->ranks.size(); std::vector<char> d; std::vector<uint64_t> off;
  for (int i = 0; i < n; ++i) { off.push_back(d.size()); auto p = packed((const char*)sb + sd[i] * ty(st, fn).extent, sn[i], st, fn); d.insert(d.end(), p.begin(), p.end()); } off.push_back(d.size());
  std::vector<char> all((char*)off.data(), (char*)(off.data() + off.size())); all.insert(all.end(), d.begin(), d.end());
  auto x = enter(c, "MPI_Alltoallv", all, fn); wait_all(x, fn);
  for (int i = 0; i < n; ++i) { auto &v = x.k->data[i]; uint64_t *o = (uint64_t*)v.data(); size_t base = (n + 1) * 8; std::vector<char> p(v.begin() + base + o[x.me], v.begin() + base + o[x.me + 1]); if (p.size() > bytes_of(rn[i], rt, fn)) sim_fail("mpi-truncate", "MPI_Alltoallv"); put((char*)rb + rd[i] * ty(rt, fn).extent, p, rt, fn); }
  leave(x); return MPI_SUCCESS;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  std::vector<int> a, b, d, e; { Host h; auto o = comm_of(c, "MPI_Alltoall"); for (size_t i = 0; i < o->ranks.size(); ++i) { a.push_back(sn); b.push_back(rn); d.push_back(sn * i); e.push_back(rn * i); } } return MPI_Alltoallv(sb, a.data(), d.data(), st, rb, b.data(), e.data(), rt, c); }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *op) { Host h; char *p = (char*)malloc(16); user_ops[p] = {f}; *op = (MPI_Op)p; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op *op) { Host h; user_ops.erase(*op); *op = MPI_OP_NULL; return MPI_SUCCESS; }

// ------------------------------------------------------------------ derived datatypes
static MPI_Datatype newtype(std::shared_ptr<TypeInfo> i) { char *p = (char*)malloc(16); types()[p] = i; return (MPI_Datatype)p; }
static void addblk(TypeInfo &t, long off, TypeInfo &o) { for (auto &b : o.blocks) { if (!t.blocks.empty() && t.blocks.back().first + (long)t.blocks.back().second == off + b.first) t.blocks.back().second += b.second; else t.blocks.push_back({off + b.first, b.second}); t.size += b.second; } }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *r) { Host h; auto &t = ty(o, "MPI_Type_contiguous"); auto i = std::make_shared<TypeInfo>(); for (int k = 0; k < n; ++k) addblk(*i, k * t.extent, t); i->extent = n * t.extent; i->kind = n == 1 ? t.kind : K_NONE; *r = newtype(i); return MPI_SUCCESS; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint stride, MPI_Datatype o, MPI_Datatype *r) { Host h; auto &t = ty(o, "MPI_Type_vector"); auto i = std::make_shared<TypeInfo>(); for (int a = 0; a < n; ++a) for (int b = 0; b < bl; ++b) addblk(*i, a * stride + b * t.extent, t); i->extent = n ? (n - 1) * stride + bl * t.extent : 0; *r = newtype(i); return MPI_SUCCESS; }
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype *r) { long e; { Host h; e = ty(o, "MPI_Type_vector").extent; } return MPI_Type_create_hvector(n, bl, stride * e, o, r); }
int MPI_Type_indexed(int n, const int bl[], const int dp[], MPI_Datatype o, MPI_Datatype *r) { Host h; auto &t = ty(o, "MPI_Type_indexed"); auto i = std::make_shared<TypeInfo>(); long e = 0; for (int a = 0; a < n; ++a) for (int b = 0; b < bl[a]; ++b) { addblk(*i, (dp[a] + b) * t.extent, t); e = std::max(e, (dp[a] + b + 1) * t.extent); } i->extent = e; *r = newtype(i); return MPI_SUCCESS; }
int MPI_Type_create_subarray(int nd, const int sz[], const int sub[], const int st[], int order, MPI_Datatype o, MPI_Datatype *r) {
  Host h; auto &t = ty(o, "MPI_Type_create_subarray"); auto i = std::make_shared<TypeInfo>(); long tot = 1; for (int d = 0; d < nd; ++d) { tot *= sz[d]; if (st[d] < 0 || sub[d] < 1 || st[d] + sub[d] > sz[d]) sim_fail("mpi-misuse", "MPI_Type_create_subarray: dimension %d", d); }
  std::vector<int> p(nd, 0); bool C = order == MPI_ORDER_C;
  for (;;) { long off = 0; if (C) for (int d = 0; d < nd; ++d) off = off * sz[d] + st[d] + p[d]; else for (int d = nd - 1; d >= 0; --d) off = off * sz[d] + st[d] + p[d];
    addblk(*i, off * t.extent, t); int d = C ? nd - 1 : 0; for (;;) { if (d < 0 || d >= nd) break; if (++p[d] < sub[d]) break; p[d] = 0; d += C ? -1 : 1; } if (d < 0 || d >= nd) break; }
  i->extent = tot * t.extent; *r = newtype(i); return MPI_SUCCESS;
}
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint dp[], const MPI_Datatype ts[], MPI_Datatype *r) { Host h; auto i = std::make_shared<TypeInfo>(); long e = 0; for (int a = 0; a < n; ++a) { auto &t = ty(ts[a], "MPI_Type_create_struct"); for (int b = 0; b < bl[a]; ++b) addblk(*i, dp[a] + b * t.extent, t); e = std::max(e, (long)(dp[a] + bl[a] * t.extent)); } i->extent = e; *r = newtype(i); return MPI_SUCCESS; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint, MPI_Aint ext, MPI_Datatype *r) { Host h; auto i = std::make_shared<TypeInfo>(ty(o, "MPI_Type_create_resized")); i->extent = ext; *r = newtype(i); return MPI_SUCCESS; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *r) { Host h; *r = newtype(std::make_shared<TypeInfo>(ty(o, "MPI_Type_dup"))); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype*) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { Host h; ty(*t, "MPI_Type_free"); types()[*t] = std::make_shared<TypeInfo>(*types()[*t]); types()[*t]->freed = true; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *s) { Host h; *s = ty(t, "MPI_Type_size").size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *l, MPI_Aint *e) { Host h; *l = 0; *e = ty(t, "MPI_Type_get_extent").extent; return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
int MPI_Pack(const void *in, int n, MPI_Datatype t, void *out, int osz, int *pos, MPI_Comm) { Host h; auto v = packed(in, n, t, "MPI_Pack"); if (*pos + (int)v.size() > osz) sim_fail("mpi-truncate", "MPI_Pack"); memcpy((char*)out + *pos, v.data(), v.size()); *pos += v.size(); return MPI_SUCCESS; }
int MPI_Unpack(const void *in, int isz, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm) { Host h; size_t b = bytes_of(n, t, "MPI_Unpack"); if (*pos + (int)b > isz) sim_fail("mpi-truncate", "MPI_Unpack"); std::vector<char> v((const char*)in + *pos, (const char*)in + *pos + b); put(out, v, t, "MPI_Unpack"); *pos += b; return MPI_SUCCESS; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int *s) { Host h; *s = bytes_of(n, t, "MPI_Pack_size"); return MPI_SUCCESS; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { *(void**)p = malloc(n); return MPI_SUCCESS; }
int MPI_Free_mem(void *p) { free(p); return MPI_SUCCESS; }

// ------------------------------------------------------------------ info objects
int MPI_Info_create(MPI_Info *i) { *i = (MPI_Info)malloc(16); return MPI_SUCCESS; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info *i) { free(*i); *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int MPI_Info_dup(MPI_Info, MPI_Info *n) { return MPI_Info_create(n); }

// ------------------------------------------------------------------ non-blocking collectives complete in MPI_Wait* via an eager emulation
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { MPI_Barrier(c); Host h; Request *r = new Request; r->owner = sim_rank(); r->done = true; live_reqs.insert(r); *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Iallreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { MPI_Allreduce(sb, rb, n, t, op, c); Host h; Request *r = new Request; r->owner = sim_rank(); r->done = true; live_reqs.insert(r); *q = (MPI_Request)r; return MPI_SUCCESS; }
int MPI_Comm_f2c_dummy(void) { return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm) { return 0; }
}

// Simulated HDF5 library with a simulated parallel file system below it (declared as a stub in the
// evidence). Linked in place of libhdf5; the code under test is compiled against the real <hdf5.h>.
// It enforces the documented collective calling requirements, bounds and handle lifetimes.
#include "core.h"
#define OMPI_SKIP_MPICXX 1
#include <hdf5.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <algorithm>
#include <memory>
using namespace sim;

namespace sim { int comm_size_of(void*); long comm_ctx_of(void*); std::vector<int> comm_members(void*); }

namespace {
enum TK { T_I8 = 1, T_U8, T_I16, T_U16, T_I32, T_U32, T_I64, T_U64, T_F32, T_F64, T_F80, T_STR };
struct Type { int k; size_t size; };
struct Attr { Type type; std::vector<hsize_t> dims; std::vector<char> data; std::vector<char> set_by; bool written = false; };
struct Dataset { std::string name; Type type; std::vector<hsize_t> dims; std::vector<char> data; std::vector<uint8_t> written; std::map<std::string, Attr> attrs; size_t n() const { size_t r = 1; for (auto d : dims) r *= d; return r; } };
struct File { std::string path; bool complete = false; bool torn = false; std::map<std::string, std::shared_ptr<Dataset>> ds; std::vector<std::string> order; std::set<std::string> groups; std::map<std::string, Attr> attrs; int writers = 0; };
std::map<std::string, std::shared_ptr<File>> disk;

struct Seq { std::map<int, long> next; struct One { std::string sig; int entered = 0; std::shared_ptr<void> made; int result = 0; }; std::map<long, std::shared_ptr<One>> ops; std::vector<int> members; };
struct OpenFile { std::shared_ptr<File> f; bool writable; long ctx; std::vector<int> members; std::shared_ptr<Seq> seq; bool failed_write = false; std::string path; };

enum OK { O_FILE, O_SPACE, O_DSET, O_ATTR, O_PLIST, O_TYPE, O_GROUP };
struct Obj {
  OK kind; int rank; std::shared_ptr<OpenFile> of; std::shared_ptr<Dataset> ds; std::string name;
  std::vector<hsize_t> dims; bool sel_all = true; std::vector<size_t> sel;    // space
  hid_t cls = 0; void *comm = nullptr; bool collective = false;                // plist
  Type type{T_I32, 4}; int refs = 1;
  std::map<std::string, Attr> *attrs = nullptr;                                 // where an attribute lives
};
std::map<hid_t, std::shared_ptr<Obj>> objs;
hid_t next_id = 1000000;
std::map<std::string, std::shared_ptr<Seq>> open_seqs; // per communicator context
int fault_kind = 0; long fault_nth = -1; int fault_rank = -1; int faults_fired = 0; std::map<int, std::map<int, long>> op_count;

const char *kname(int k) { static const char *n[] = {"none", "create-file", "open-file", "create-dataset", "write-data", "read-data", "close-file", "create-attribute", "write-attribute", "close-dataset", "open-dataset"}; return n[k]; }
bool faulted(int kind) {
  long c = op_count[sim_rank()][kind]++;
  if (kind != fault_kind || c != fault_nth) return false;
  if (fault_rank >= 0 && fault_rank % sim_nranks() != sim_rank()) return false;
  ++faults_fired; char b[60]; snprintf(b, sizeof b, "h5:%s-fails%s", kname(kind), fault_rank >= 0 ? "-on-one-process" : ""); sim_fault_fired(b);
  return true;
}
std::shared_ptr<Obj> get(hid_t id, int kind) {
  auto i = objs.find(id); if (i == objs.end()) return nullptr;
  if (i->second->rank != sim_rank()) sim_fail("h5-misuse", "identifier of process %d used by process %d", i->second->rank, sim_rank());
  if (kind >= 0 && i->second->kind != kind) return nullptr;
  return i->second;
}
hid_t put(std::shared_ptr<Obj> o) { o->rank = sim_rank(); objs[++next_id] = o; return next_id; }
herr_t drop(hid_t id, int kind) { auto o = get(id, kind); if (!o) return -1; if (--o->refs <= 0) objs.erase(id); return 0; }
void pt(const char *fn) { if (sim_rank() < 0) sim_harness_error("%s outside a simulated process", fn); sim_point(fn); }

// collective call: all members must make the same calls in the same order
std::shared_ptr<Seq::One> collective(std::shared_ptr<Seq> s, const std::string &sig, bool sync, const char *fn) {
  int me = sim_rank(); long k = s->next[me]++;
  auto &o = s->ops[k]; if (!o) { o = std::make_shared<Seq::One>(); o->sig = sig; }
  if (o->sig != sig) sim_fail("h5-collective-mismatch", "process %d calls %s where another process of the file's communicator calls %s", me, sig.c_str(), o->sig.c_str());
  o->entered++;
  trace("  process %d: %s", me, sig.c_str());
  auto op = o; int n = s->members.size();
  if (sync) wait_until(fn, [op, n] { return op->entered >= n; });
  return op;
}
bool base_type(hid_t id, Type &t);
size_t tsize(int k) { switch (k) { case T_I8: case T_U8: return 1; case T_I16: case T_U16: return 2; case T_I32: case T_U32: case T_F32: return 4; case T_F80: return 16; default: return 8; } }
long double load(const char *p, const Type &t) {
  switch (t.k) {
#define L(K, C) case K: { C v; memcpy(&v, p, sizeof v); return v; }
    L(T_I8, int8_t) L(T_U8, uint8_t) L(T_I16, int16_t) L(T_U16, uint16_t) L(T_I32, int32_t) L(T_U32, uint32_t) L(T_I64, int64_t) L(T_U64, uint64_t) L(T_F32, float) L(T_F64, double) L(T_F80, long double)
#undef L
  } return 0;
}
void store(char *p, const Type &t, long double x) {
  switch (t.k) {
#define L(K, C) case K: { C v = (C)x; memcpy(p, &v, sizeof v); break; }
    L(T_I8, int8_t) L(T_U8, uint8_t) L(T_I16, int16_t) L(T_U16, uint16_t) L(T_I32, int32_t) L(T_U32, uint32_t) L(T_I64, int64_t) L(T_U64, uint64_t) L(T_F32, float) L(T_F64, double) L(T_F80, long double)
#undef L
  }
}
void conv(char *dst, const Type &dt, const char *src, const Type &st) { if (dt.k == st.k) memcpy(dst, src, st.size); else store(dst, dt, load(src, st)); }
size_t total(const std::vector<hsize_t> &d) { size_t r = 1; for (auto x : d) r *= x; return r; }
void enumerate(const Obj &s, std::vector<size_t> &out) { if (s.sel_all) { size_t n = total(s.dims); out.resize(n); for (size_t i = 0; i < n; ++i) out[i] = i; } else out = s.sel; }
std::string dimstr(const std::vector<hsize_t> &d) { std::string s; for (auto x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
bool use_sync() { return sim_net.strict_collectives; }
} // namespace

namespace sim {
static int h5_incomplete = 0, h5_left_open = 0, h5_fapls = 0; static std::string h5_incomplete_what;
void h5_reset_job() { objs.clear(); open_seqs.clear(); op_count.clear(); }
void h5_end_of_job(int outcome) {
  h5_incomplete = 0; h5_left_open = 0; h5_fapls = 0; h5_incomplete_what.clear();
  for (auto &s : open_seqs) for (auto &o : s.second->ops) if (o.second->entered < (int)s.second->members.size()) { ++h5_incomplete; if (h5_incomplete_what.empty()) h5_incomplete_what = o.second->sig + " was called by " + std::to_string(o.second->entered) + " of " + std::to_string(s.second->members.size()) + " processes"; }
  for (auto &o : objs) { if (o.second->kind != O_PLIST && o.second->kind != O_TYPE) ++h5_left_open; if (o.second->kind == O_PLIST && o.second->comm) ++h5_fapls; }
  if (outcome != JOB_OK) sim_h5_crash();
  else for (auto &f : disk) if (!f.second->complete) f.second->torn = true; // never closed
  fault_kind = 0;
}
}
extern "C" {
int sim_h5_incomplete_collectives(void) { return h5_incomplete; }
const char *sim_h5_incomplete_what(void) { return h5_incomplete_what.c_str(); }
void sim_h5_fault(int kind, long nth, int one) { fault_kind = kind; fault_nth = nth; fault_rank = one; faults_fired = 0; }
int sim_h5_faults_fired(void) { return faults_fired; }
void sim_h5_crash(void) { for (auto &f : disk) { if (!f.second->complete) f.second->torn = true; f.second->writers = 0; } }
int sim_h5_file_count(void) { return disk.size(); }
const char *sim_h5_file_name(int i) { auto it = disk.begin(); std::advance(it, i); return it->first.c_str(); }
int sim_h5_file_state(const char *p) { auto i = disk.find(p); return i == disk.end() ? -1 : i->second->complete ? 1 : 0; }
int sim_h5_dataset_count(const char *p) { auto i = disk.find(p); return i == disk.end() ? 0 : i->second->order.size(); }
const char *sim_h5_dataset_name(const char *p, int k) { return disk[p]->order[k].c_str(); }
static Dataset *dsp(const char *p, const char *d) { auto i = disk.find(p); if (i == disk.end()) return 0; auto j = i->second->ds.find(d); return j == i->second->ds.end() ? 0 : j->second.get(); }
int sim_h5_dataset_rank(const char *p, const char *d) { auto x = dsp(p, d); return x ? (int)x->dims.size() : -1; }
int sim_h5_dataset_dim(const char *p, const char *d, int k) { auto x = dsp(p, d); return x ? (int)x->dims[k] : -1; }
int sim_h5_dataset_get(const char *p, const char *d, size_t i, double *v) { auto x = dsp(p, d); if (!x || i >= x->n()) return -1; *v = load(x->data.data() + i * x->type.size, x->type); return x->written[i]; }
int sim_h5_attr_count(const char *p, const char *d) { auto x = dsp(p, d); return x ? (int)x->attrs.size() : -1; }
int sim_h5_attr_get(const char *p, const char *d, const char *n, int i, double *v) { auto x = dsp(p, d); if (!x) return -1; auto a = x->attrs.find(n); if (a == x->attrs.end()) return -1; size_t k = total(a->second.dims); if ((size_t)i >= k) return -1; *v = load(a->second.data.data() + i * a->second.type.size, a->second.type); return a->second.written; }
int sim_h5_open_access_lists(void) { return h5_fapls; }
int sim_h5_open_handles(void) { return h5_left_open; }
void sim_h5_clear(void) { disk.clear(); }

// ------------------------------------------------------------------ library, types
#define G(N) hid_t H5T_NATIVE_##N##_g
G(SCHAR) = 101; G(UCHAR) = 102; G(SHORT) = 103; G(USHORT) = 104; G(INT) = 105; G(UINT) = 106; G(LONG) = 107; G(ULONG) = 108; G(LLONG) = 107; G(ULLONG) = 108; G(FLOAT) = 109; G(DOUBLE) = 110; G(LDOUBLE) = 111;
G(INT8) = 101; G(UINT8) = 102; G(INT16) = 103; G(UINT16) = 104; G(INT32) = 105; G(UINT32) = 106; G(INT64) = 107; G(UINT64) = 108; G(HSIZE) = 108; G(HSSIZE) = 107; G(HERR) = 105; G(HBOOL) = 102; G(B8) = 102; G(B16) = 104; G(B32) = 106; G(B64) = 108; G(OPAQUE) = 102;
hid_t H5T_STD_I32LE_g = 105, H5T_STD_I64LE_g = 107, H5T_IEEE_F32LE_g = 109, H5T_IEEE_F64LE_g = 110, H5T_STD_U8LE_g = 102, H5T_STD_I8LE_g = 101, H5T_STD_U32LE_g = 106, H5T_STD_U64LE_g = 108, H5T_C_S1_g = 112;
hid_t H5P_CLS_ROOT_ID_g = 200, H5P_CLS_FILE_ACCESS_ID_g = 201, H5P_CLS_FILE_CREATE_ID_g = 202, H5P_CLS_DATASET_XFER_ID_g = 203, H5P_CLS_DATASET_CREATE_ID_g = 204, H5P_CLS_DATASET_ACCESS_ID_g = 205, H5P_CLS_LINK_CREATE_ID_g = 206, H5P_CLS_LINK_ACCESS_ID_g = 207, H5P_CLS_GROUP_CREATE_ID_g = 208, H5P_CLS_GROUP_ACCESS_ID_g = 209, H5P_CLS_ATTRIBUTE_CREATE_ID_g = 210, H5P_CLS_OBJECT_CREATE_ID_g = 211, H5P_CLS_ATTRIBUTE_ACCESS_ID_g = 212;
herr_t H5open(void) { return 0; }
herr_t H5close(void) { return 0; }
herr_t H5dont_atexit(void) { return 0; }
herr_t H5garbage_collect(void) { return 0; }
herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
herr_t H5get_libversion(unsigned *a, unsigned *b, unsigned *c) { *a = H5_VERS_MAJOR; *b = H5_VERS_MINOR; *c = H5_VERS_RELEASE; return 0; }
herr_t H5Eset_auto2(hid_t, H5E_auto2_t, void*) { return 0; }
herr_t H5Eget_auto2(hid_t, H5E_auto2_t *f, void **d) { if (f) *f = 0; if (d) *d = 0; return 0; }
herr_t H5Eprint2(hid_t, FILE*) { return 0; }
herr_t H5Eclear2(hid_t) { return 0; }
}
namespace {
bool base_type(hid_t id, Type &t) {
  static const int m[] = {T_I8, T_U8, T_I16, T_U16, T_I32, T_U32, T_I64, T_U64, T_F32, T_F64, T_F80, T_STR};
  if (id >= 101 && id <= 112) { t.k = m[id - 101]; t.size = t.k == T_STR ? 1 : tsize(t.k); return true; }
  auto o = get(id, O_TYPE); if (!o) return false; t = o->type; return true;
}
}
extern "C" {
hid_t H5Tcopy(hid_t t) { Host h; Type x; if (!base_type(t, x)) return -1; auto o = std::make_shared<Obj>(); o->kind = O_TYPE; o->type = x; return put(o); }
herr_t H5Tclose(hid_t t) { Host h; return drop(t, O_TYPE); }
herr_t H5Tset_size(hid_t t, size_t s) { Host h; auto o = get(t, O_TYPE); if (!o) return -1; o->type.size = s; return 0; }
size_t H5Tget_size(hid_t t) { Host h; Type x; return base_type(t, x) ? x.size : 0; }
H5T_class_t H5Tget_class(hid_t t) { Host h; Type x; if (!base_type(t, x)) return H5T_NO_CLASS; return x.k >= T_F32 && x.k <= T_F80 ? H5T_FLOAT : x.k == T_STR ? H5T_STRING : H5T_INTEGER; }
htri_t H5Tequal(hid_t a, hid_t b) { Host h; Type x, y; if (!base_type(a, x) || !base_type(b, y)) return -1; return x.k == y.k && x.size == y.size; }

// ------------------------------------------------------------------ identifiers, property lists
H5I_type_t H5Iget_type(hid_t i) { Host h; auto o = get(i, -1); if (!o) return H5I_BADID; switch (o->kind) { case O_FILE: return H5I_FILE; case O_SPACE: return H5I_DATASPACE; case O_DSET: return H5I_DATASET; case O_ATTR: return H5I_ATTR; case O_TYPE: return H5I_DATATYPE; case O_GROUP: return H5I_GROUP; default: return H5I_GENPROP_LST; } }
htri_t H5Iis_valid(hid_t i) { Host h; return get(i, -1) != nullptr; }
int H5Iinc_ref(hid_t i) { Host h; auto o = get(i, -1); return o ? ++o->refs : -1; }
hid_t H5Pcreate(hid_t cls) { Host h; auto o = std::make_shared<Obj>(); o->kind = O_PLIST; o->cls = cls; return put(o); }
hid_t H5Pcopy(hid_t p) { Host h; auto o = get(p, O_PLIST); if (!o) return -1; return put(std::make_shared<Obj>(*o)); }
herr_t H5Pclose(hid_t p) { Host h; if (p == H5P_DEFAULT) return 0; return drop(p, O_PLIST); }
#define PSET(N, ...) herr_t N(hid_t p, __VA_ARGS__) { Host h; return get(p, O_PLIST) ? 0 : -1; }
PSET(H5Pset_sieve_buf_size, size_t) PSET(H5Pset_alignment, hsize_t, hsize_t) PSET(H5Pset_cache, int, size_t, size_t, double) PSET(H5Pset_libver_bounds, H5F_libver_t, H5F_libver_t) PSET(H5Pset_fclose_degree, H5F_close_degree_t) PSET(H5Pset_chunk, int, const hsize_t*) PSET(H5Pset_fill_time, H5D_fill_time_t) PSET(H5Pset_alloc_time, H5D_alloc_time_t) PSET(H5Pset_meta_block_size, hsize_t) PSET(H5Pset_buffer, size_t, void*, void*) PSET(H5Pset_create_intermediate_group, unsigned) PSET(H5Pset_fill_value, hid_t, const void*) PSET(H5Pset_all_coll_metadata_ops, hbool_t) PSET(H5Pset_coll_metadata_write, hbool_t)
herr_t H5Pset_fapl_mpio(hid_t p, MPI_Comm c, MPI_Info) { Host h; auto o = get(p, O_PLIST); if (!o) return -1; comm_size_of((void*)c); o->comm = (void*)c; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t p, H5FD_mpio_xfer_t m) { Host h; auto o = get(p, O_PLIST); if (!o) return -1; o->collective = m == H5FD_MPIO_COLLECTIVE; return 0; }
herr_t H5Pset_dxpl_mpio_collective_opt(hid_t, H5FD_mpio_collective_opt_t) { return 0; }

// ------------------------------------------------------------------ files
static hid_t fopen_common(const char *name, bool create, unsigned flags, hid_t fapl, const char *fn) {
  Host h; pt(fn);
  std::vector<int> members{sim_rank()}; long ctx = -1 - sim_rank();
  if (fapl != H5P_DEFAULT) { auto p = get(fapl, O_PLIST); if (!p) return -1; if (p->comm) { members = comm_members(p->comm); ctx = comm_ctx_of(p->comm); } }
  if (std::find(members.begin(), members.end(), sim_rank()) == members.end()) sim_fail("h5-misuse", "%s: process %d is not in the file's communicator", fn, sim_rank());
  auto &s = open_seqs[std::to_string(ctx)]; if (!s) { s = std::make_shared<Seq>(); s->members = members; }
  auto seq = s;
  auto op = collective(seq, std::string(fn) + "(" + name + ")", true, fn);
  if (faulted(create ? HF_CREATE : HF_OPEN)) return -1;
  if (!op->made) {
    auto of = std::make_shared<OpenFile>(); of->ctx = ctx; of->members = members; of->path = name; of->writable = create || (flags & H5F_ACC_RDWR);
    if (create) {
      auto i = disk.find(name);
      if (i != disk.end() && i->second->writers > 0) { op->result = -1; sim_note("%s: file %s is still open", fn, name); }
      else if (i != disk.end() && (flags & H5F_ACC_EXCL)) op->result = -1;
      else { of->f = std::make_shared<File>(); of->f->path = name; disk[name] = of->f; of->f->writers = 1; }
    } else {
      auto i = disk.find(name);
      if (i == disk.end() || !i->second->complete) op->result = -1; else { of->f = i->second; if (of->writable) { of->f->complete = false; of->f->writers = 1; } }
    }
    of->seq = std::make_shared<Seq>(); of->seq->members = members; open_seqs[std::string("file ") + name + "#" + std::to_string(next_id++)] = of->seq;
    op->made = of;
  }
  if (op->result < 0) return -1;
  auto o = std::make_shared<Obj>(); o->kind = O_FILE; o->of = std::static_pointer_cast<OpenFile>(op->made); return put(o);
}
hid_t H5Fcreate(const char *n, unsigned fl, hid_t, hid_t fapl) { return fopen_common(n, true, fl, fapl, "H5Fcreate"); }
hid_t H5Fopen(const char *n, unsigned fl, hid_t fapl) { return fopen_common(n, false, fl, fapl, "H5Fopen"); }
htri_t H5Fis_hdf5(const char *n) { Host h; auto i = disk.find(n); return i == disk.end() ? -1 : i->second->complete; }
herr_t H5Fflush(hid_t f, H5F_scope_t) { Host h; pt("H5Fflush"); auto o = get(f, -1); if (!o || !o->of) return -1; collective(o->of->seq, "H5Fflush", use_sync(), "H5Fflush"); return 0; }
herr_t H5Fclose(hid_t f) {
  Host h; pt("H5Fclose"); auto o = get(f, O_FILE); if (!o) return -1;
  if (o->refs > 1) { --o->refs; return 0; }
  for (auto &e : objs) if (e.second->rank == sim_rank() && e.second->of == o->of && e.second != o) { sim_note("H5Fclose(%s) fails: objects in the file are still open", o->of->path.c_str()); return -1; }
  auto of = o->of; objs.erase(f);
  auto op = collective(of->seq, "H5Fclose(" + of->path + ")", true, "H5Fclose");
  bool bad = faulted(HF_CLOSE);
  if (bad) op->result = -1;
  if (!op->made) op->made = std::make_shared<int>(0);
  int &left = *std::static_pointer_cast<int>(op->made);
  if (++left == (int)of->members.size()) { of->f->writers = 0; if (of->writable) of->f->complete = op->result == 0 && !of->f->torn; }
  return bad ? -1 : 0;
}

// ------------------------------------------------------------------ dataspaces
hid_t H5Screate(H5S_class_t) { Host h; auto o = std::make_shared<Obj>(); o->kind = O_SPACE; return put(o); }
hid_t H5Screate_simple(int r, const hsize_t d[], const hsize_t*) { Host h; if (r < 0 || r > 32) return -1; for (int i = 0; i < r; ++i) if (d[i] > (1ull << 40)) return -1; auto o = std::make_shared<Obj>(); o->kind = O_SPACE; o->dims.assign(d, d + r); return put(o); }
hid_t H5Scopy(hid_t s) { Host h; auto o = get(s, O_SPACE); return o ? put(std::make_shared<Obj>(*o)) : -1; }
herr_t H5Sclose(hid_t s) { Host h; return drop(s, O_SPACE); }
herr_t H5Sselect_all(hid_t s) { Host h; auto o = get(s, O_SPACE); if (!o) return -1; o->sel_all = true; return 0; }
herr_t H5Sselect_none(hid_t s) { Host h; auto o = get(s, O_SPACE); if (!o) return -1; o->sel_all = false; o->sel.clear(); return 0; }
herr_t H5Sselect_hyperslab(hid_t s, H5S_seloper_t op, const hsize_t st[], const hsize_t str[], const hsize_t cnt[], const hsize_t blk[]) {
  Host h; auto o = get(s, O_SPACE); if (!o) return -1; size_t r = o->dims.size(); std::vector<std::vector<size_t>> ix(r);
  for (size_t d = 0; d < r; ++d) { hsize_t sd = str ? str[d] : 1, b = blk ? blk[d] : 1; if (sd == 0 || cnt[d] > (1ull << 32)) return -1; for (hsize_t c = 0; c < cnt[d]; ++c) for (hsize_t k = 0; k < b; ++k) ix[d].push_back(st[d] + c * sd + k); }
  std::vector<size_t> out; std::vector<size_t> p(r, 0); bool empty = false; for (auto &v : ix) if (v.empty()) empty = true;
  for (size_t d = 0; d < r && !empty; ++d) for (size_t v : ix[d]) if (v >= o->dims[d]) { sim_note("hyperslab outside the extent"); return -1; }
  if (!empty) for (;;) { size_t l = 0; for (size_t d = 0; d < r; ++d) l = l * o->dims[d] + ix[d][p[d]]; out.push_back(l); long d = r - 1; for (; d >= 0; --d) { if (++p[d] < ix[d].size()) break; p[d] = 0; } if (d < 0) break; }
  if (op == H5S_SELECT_SET) o->sel = out; else if (op == H5S_SELECT_OR) { std::set<size_t> u(o->sel.begin(), o->sel.end()); u.insert(out.begin(), out.end()); o->sel.assign(u.begin(), u.end()); } else return -1;
  o->sel_all = false; return 0;
}
int H5Sget_simple_extent_ndims(hid_t s) { Host h; auto o = get(s, O_SPACE); return o ? (int)o->dims.size() : -1; }
int H5Sget_simple_extent_dims(hid_t s, hsize_t d[], hsize_t m[]) { Host h; auto o = get(s, O_SPACE); if (!o) return -1; for (size_t i = 0; i < o->dims.size(); ++i) { if (d) d[i] = o->dims[i]; if (m) m[i] = o->dims[i]; } return o->dims.size(); }
hssize_t H5Sget_simple_extent_npoints(hid_t s) { Host h; auto o = get(s, O_SPACE); return o ? (hssize_t)total(o->dims) : -1; }
hssize_t H5Sget_select_npoints(hid_t s) { Host h; auto o = get(s, O_SPACE); return o ? (hssize_t)(o->sel_all ? total(o->dims) : o->sel.size()) : -1; }

// ------------------------------------------------------------------ groups, links
static std::shared_ptr<OpenFile> loc(hid_t l, std::string &prefix) { auto o = get(l, -1); if (!o || !o->of) return nullptr; prefix = o->kind == O_GROUP ? o->name + "/" : ""; return o->of; }
static std::string norm(const std::string &p, const char *n) { return n[0] == '/' ? n + 1 : p + n; }
hid_t H5Gcreate2(hid_t l, const char *n, hid_t, hid_t, hid_t) { Host h; pt("H5Gcreate"); std::string p; auto f = loc(l, p); if (!f) return -1; std::string full = norm(p, n); auto op = collective(f->seq, "H5Gcreate(" + full + ")", use_sync(), "H5Gcreate"); if (!op->made) { op->made = std::make_shared<int>(0); op->result = f->f->groups.insert(full).second ? 0 : -1; } if (op->result < 0) return -1; auto o = std::make_shared<Obj>(); o->kind = O_GROUP; o->of = f; o->name = full; return put(o); }
hid_t H5Gopen2(hid_t l, const char *n, hid_t) { Host h; std::string p; auto f = loc(l, p); if (!f) return -1; std::string full = norm(p, n); if (!full.empty() && !f->f->groups.count(full)) return -1; auto o = std::make_shared<Obj>(); o->kind = O_GROUP; o->of = f; o->name = full; return put(o); }
herr_t H5Gclose(hid_t g) { Host h; return drop(g, O_GROUP); }
htri_t H5Lexists(hid_t l, const char *n, hid_t) { Host h; std::string p; auto f = loc(l, p); if (!f) return -1; std::string full = norm(p, n); return f->f->ds.count(full) || f->f->groups.count(full); }

// ------------------------------------------------------------------ datasets
hid_t H5Dcreate2(hid_t l, const char *n, hid_t t, hid_t sp, hid_t, hid_t, hid_t) {
  Host h; pt("H5Dcreate"); std::string p; auto f = loc(l, p); Type ty; auto s = get(sp, O_SPACE); if (!f || !s || !base_type(t, ty) || !f->writable) return -1;
  std::string full = norm(p, n);
  auto op = collective(f->seq, "H5Dcreate(" + full + ", type " + std::to_string(ty.k) + ", " + dimstr(s->dims) + ")", use_sync(), "H5Dcreate");
  if (faulted(HF_DCREATE)) return -1;
  if (!op->made) {
    if (f->f->ds.count(full)) { op->result = -1; op->made = std::make_shared<int>(0); sim_note("H5Dcreate: %s exists", full.c_str()); }
    else { auto d = std::make_shared<Dataset>(); d->name = full; d->type = ty; d->dims = s->dims; d->data.assign(d->n() * ty.size, 0); d->written.assign(d->n(), 0); f->f->ds[full] = d; f->f->order.push_back(full); op->made = d; }
  }
  if (op->result < 0) return -1;
  auto o = std::make_shared<Obj>(); o->kind = O_DSET; o->of = f; o->ds = std::static_pointer_cast<Dataset>(op->made); o->name = full; return put(o);
}
hid_t H5Dcreate1(hid_t l, const char *n, hid_t t, hid_t s, hid_t p) { return H5Dcreate2(l, n, t, s, H5P_DEFAULT, p, H5P_DEFAULT); }
hid_t H5Dopen2(hid_t l, const char *n, hid_t) {
  Host h; pt("H5Dopen"); std::string p; auto f = loc(l, p); if (!f) return -1; if (faulted(HF_DOPEN)) return -1;
  auto i = f->f->ds.find(norm(p, n)); if (i == f->f->ds.end()) return -1; auto o = std::make_shared<Obj>(); o->kind = O_DSET; o->of = f; o->ds = i->second; o->name = i->first; return put(o);
}
hid_t H5Dopen1(hid_t l, const char *n) { return H5Dopen2(l, n, H5P_DEFAULT); }
herr_t H5Dclose(hid_t d) { Host h; pt("H5Dclose"); if (!get(d, O_DSET)) return -1; bool bad = faulted(HF_DCLOSE); herr_t r = drop(d, O_DSET); return bad ? -1 : r; }
hid_t H5Dget_space(hid_t d) { Host h; auto o = get(d, O_DSET); if (!o) return -1; auto s = std::make_shared<Obj>(); s->kind = O_SPACE; s->dims = o->ds->dims; return put(s); }
hid_t H5Dget_type(hid_t d) { Host h; auto o = get(d, O_DSET); if (!o) return -1; auto s = std::make_shared<Obj>(); s->kind = O_TYPE; s->type = o->ds->type; return put(s); }
static bool selections(std::shared_ptr<Obj> o, hid_t ms, hid_t fs, std::vector<size_t> &m, std::vector<size_t> &f) {
  if (fs == H5S_ALL) { Obj a; a.dims = o->ds->dims; enumerate(a, f); } else { auto s = get(fs, O_SPACE); if (!s || s->dims != o->ds->dims) return false; enumerate(*s, f); }
  if (ms == H5S_ALL) m = f; else { auto s = get(ms, O_SPACE); if (!s) return false; enumerate(*s, m); }
  if (m.size() != f.size()) { sim_note("memory and file selections differ in size"); return false; }
  return true;
}
herr_t H5Dwrite(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t dx, const void *buf) {
  Host h; pt("H5Dwrite"); auto o = get(d, O_DSET); Type ty; if (!o || !base_type(t, ty) || !o->of->writable) return -1;
  bool coll = false; if (dx != H5P_DEFAULT) { auto p = get(dx, O_PLIST); if (!p) return -1; coll = p->collective; }
  std::vector<size_t> m, f; if (!selections(o, ms, fs, m, f)) return -1;
  std::vector<char> tmp(m.size() * ty.size); for (size_t i = 0; i < m.size(); ++i) memcpy(&tmp[i * ty.size], (const char*)buf + m[i] * ty.size, ty.size);
  if (coll) collective(o->of->seq, "H5Dwrite(" + o->name + ")", use_sync(), "H5Dwrite");
  if (faulted(HF_DWRITE)) return -1;
  for (size_t i = 0; i < f.size(); ++i) { conv(&o->ds->data[f[i] * o->ds->type.size], o->ds->type, &tmp[i * ty.size], ty); o->ds->written[f[i]] = 1; }
  uint64_t hsh = 7; for (char c : tmp) hsh = (hsh ^ (unsigned char)c) * 0x100000001b3ull; mix(hsh);
  return 0;
}
herr_t H5Dread(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t dx, void *buf) {
  Host h; pt("H5Dread"); auto o = get(d, O_DSET); Type ty; if (!o || !base_type(t, ty)) return -1;
  bool coll = false; if (dx != H5P_DEFAULT) { auto p = get(dx, O_PLIST); if (!p) return -1; coll = p->collective; }
  std::vector<size_t> m, f; if (!selections(o, ms, fs, m, f)) return -1;
  if (coll) collective(o->of->seq, "H5Dread(" + o->name + ")", use_sync(), "H5Dread");
  if (faulted(HF_DREAD)) return -1;
  for (size_t i = 0; i < f.size(); ++i) conv((char*)buf + m[i] * ty.size, ty, &o->ds->data[f[i] * o->ds->type.size], o->ds->type);
  return 0;
}

// ------------------------------------------------------------------ attributes
hid_t H5Acreate2(hid_t l, const char *n, hid_t t, hid_t sp, hid_t, hid_t) {
  Host h; pt("H5Acreate"); auto o = get(l, -1); Type ty; auto s = get(sp, O_SPACE); if (!o || !o->of || !s || !base_type(t, ty) || !o->of->writable) return -1;
  auto &tab = o->kind == O_DSET ? o->ds->attrs : o->of->f->attrs;
  auto op = collective(o->of->seq, "H5Acreate(" + o->name + ":" + n + ", type " + std::to_string(ty.k) + ", " + dimstr(s->dims) + ")", use_sync(), "H5Acreate");
  if (faulted(HF_ACREATE)) return -1;
  if (!op->made) { op->made = std::make_shared<int>(0); if (tab.count(n)) op->result = -1; else { Attr a; a.type = ty; a.dims = s->dims; a.data.assign(total(s->dims) * ty.size, 0); tab[n] = a; } }
  if (op->result < 0) return -1;
  auto a = std::make_shared<Obj>(); a->kind = O_ATTR; a->of = o->of; a->ds = o->ds; a->name = n; a->attrs = &tab; return put(a);
}
hid_t H5Acreate1(hid_t l, const char *n, hid_t t, hid_t s, hid_t p) { return H5Acreate2(l, n, t, s, p, H5P_DEFAULT); }
hid_t H5Aopen(hid_t l, const char *n, hid_t) { Host h; auto o = get(l, -1); if (!o || !o->of) return -1; auto &tab = o->kind == O_DSET ? o->ds->attrs : o->of->f->attrs; if (!tab.count(n)) return -1; auto a = std::make_shared<Obj>(); a->kind = O_ATTR; a->of = o->of; a->ds = o->ds; a->name = n; a->attrs = &tab; return put(a); }
hid_t H5Aopen_name(hid_t l, const char *n) { return H5Aopen(l, n, H5P_DEFAULT); }
htri_t H5Aexists(hid_t l, const char *n) { Host h; auto o = get(l, -1); if (!o || !o->of) return -1; auto &tab = o->kind == O_DSET ? o->ds->attrs : o->of->f->attrs; return tab.count(n) > 0; }
herr_t H5Awrite(hid_t a, hid_t t, const void *buf) {
  Host h; pt("H5Awrite"); auto o = get(a, O_ATTR); Type ty; if (!o || !base_type(t, ty)) return -1;
  collective(o->of->seq, "H5Awrite(" + o->name + ")", use_sync(), "H5Awrite");
  if (faulted(HF_AWRITE)) return -1;
  Attr &x = (*o->attrs)[o->name]; size_t n = total(x.dims); for (size_t i = 0; i < n; ++i) conv(&x.data[i * x.type.size], x.type, (const char*)buf + i * ty.size, ty); x.written = true; return 0;
}
herr_t H5Aread(hid_t a, hid_t t, void *buf) { Host h; auto o = get(a, O_ATTR); Type ty; if (!o || !base_type(t, ty)) return -1; Attr &x = (*o->attrs)[o->name]; size_t n = total(x.dims); for (size_t i = 0; i < n; ++i) conv((char*)buf + i * ty.size, ty, &x.data[i * x.type.size], x.type); return 0; }
herr_t H5Aclose(hid_t a) { Host h; return drop(a, O_ATTR); }
hid_t H5Aget_space(hid_t a) { Host h; auto o = get(a, O_ATTR); if (!o) return -1; auto s = std::make_shared<Obj>(); s->kind = O_SPACE; s->dims = (*o->attrs)[o->name].dims; return put(s); }
herr_t H5Oclose(hid_t i) { Host h; return drop(i, -1); }
int H5Idec_ref(hid_t i) { Host h; auto o = get(i, -1); if (!o) return -1; if (o->kind == O_FILE) return H5Fclose(i); drop(i, -1); return 0; }
}

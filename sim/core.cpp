// Simulator core: choice streams, fibers, seeded scheduler, verdicts, allocator seam.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <cxxabi.h>
#include <new>
#include <typeinfo>
#include <exception>

namespace sim {
int in_host = 0;
RunResult *R = nullptr;
Config cfg;
Task *cur = nullptr;
Job *job = nullptr;

static FILE *trace_f = nullptr;
static size_t replay_pos[SIM_NSTREAMS];
static double now_s = 0;
static bool in_run = false;

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static Rng rng[SIM_NSTREAMS], srng, drng;

void mix(uint64_t v) { R->hash = (R->hash ^ v) * 0x100000001b3ull; R->hash ^= R->hash >> 29; }
static void mixs(const char *s) { while (*s) mix((unsigned char)*s++); }

void trace(const char *fmt, ...) {
  if (!trace_f) return;
  Host h;
  va_list ap; va_start(ap, fmt); vfprintf(trace_f, fmt, ap); va_end(ap);
  fputc('\n', trace_f);
}

void bump(Named *tab, const char *name, uint64_t by) {
  for (int i = 0; i < MAXNAMES; ++i) {
    if (!tab[i].name[0]) { strncpy(tab[i].name, name, sizeof tab[i].name - 1); tab[i].n = by; return; }
    if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) { tab[i].n += by; return; }
  }
}

// a choice in [0,n); gen() produces it when not replaying
template<class G> static uint64_t decide(int st, uint64_t n, G gen) {
  if (n <= 1) return 0;
  uint64_t v;
  if (cfg.replay) v = replay_pos[st] < cfg.rec[st].size() ? cfg.rec[st][replay_pos[st]] % n : 0;
  else v = gen();
  ++replay_pos[st];
  if (R->nrec[st] < (uint32_t)MAXREC) R->rec[st][R->nrec[st]++] = (uint32_t)v;
  if (st == SIM_PLAN || st == SIM_FAULT) { R->plan_hash = (R->plan_hash ^ (v + 0x51)) * 0x100000001b3ull; }
  mix(v + 7 * st);
  return v;
}
} // namespace sim
using namespace sim;

extern "C" uint64_t sim_choose(int st, uint64_t n) { return decide(st, n, [&] { return rng[st].below(n); }); }
extern "C" uint64_t sim_choose_p(int st, uint64_t n, double p) {
  return decide(st, n, [&]() -> uint64_t { return rng[st].unit() < p ? 1 + rng[st].below(n - 1) : 0; });
}
extern "C" uint64_t sim_data64(void) { return drng.next(); }

// ---------------------------------------------------------------- verdicts
namespace sim {
[[noreturn]] static void finish_process(int status) {
  R->status = status;
  R->simtime = now_s;
  if (trace_f) fflush(trace_f);
  _exit(0);
}
static void set_msg(const char *cls, const char *fmt, va_list ap) {
  Host h;
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
}
[[noreturn]] void vfail(const char *cls, const char *fmt, va_list ap) {
  set_msg(cls, fmt, ap);
  trace("VIOLATION %s: %s", R->cls, R->msg);
  mixs(R->cls);
  finish_process(2);
}
} // namespace sim
extern "C" void sim_fail(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); }
extern "C" void sim_harness_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); set_msg("harness", fmt, ap); finish_process(3);
}
extern "C" void sim_note(const char *fmt, ...) {
  Host h; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  mixs(b); trace("[%s%d] %s", cur ? "p" : "director", cur ? cur->rank : 0, b);
}
extern "C" void sim_probe(const char *name) { bump(R->probes, name); }
extern "C" void sim_fault_fired(const char *k) { bump(R->faults, k); trace("FAULT %s (process %d)", k, cur ? cur->rank : -1); mixs(k); }
extern "C" void sim_nontrivial(void) { R->nontrivial = 1; }
extern "C" void sim_sample(const char *fmt, ...) {
  Host h; size_t l = strlen(R->sample); va_list ap; va_start(ap, fmt);
  vsnprintf(R->sample + l, sizeof R->sample - l, fmt, ap); va_end(ap);
  trace("CASE %s", R->sample + l);
}
extern "C" int sim_rank(void) { return cur ? cur->rank : -1; }
extern "C" int sim_thread(void) { return cur ? cur->thread : 0; }
extern "C" int sim_nranks(void) { return job ? job->n : 0; }
extern "C" double sim_now(void) { return now_s; }

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save_sp, void *new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }
struct EhGlobals { void *caught; unsigned uncaught; };
static EhGlobals *eh() { return (EhGlobals*)__cxxabiv1::__cxa_get_globals(); }

namespace sim {
static void *sched_sp;
static EhGlobals sched_eh;
static std::vector<char*> free_stacks;
static const size_t STACK = 1 << 20;

[[noreturn]] static void job_abort_now(int outcome);

static void to_scheduler() {
  Task *t = cur;
  EhGlobals *g = eh();
  t->eh_caught = g->caught; t->eh_uncaught = g->uncaught;
  *g = sched_eh;
  int h = in_host;
  sim_switch(&t->sp, sched_sp);
  in_host = h;
}

static void run_body(Task *t) {
  try { in_host = 0; t->body(); in_host = 0; }
  catch (...) {
    ++in_host;
    std::string what;
    std::type_info *ti = abi::__cxa_current_exception_type();
    int st; char *dn = ti ? abi::__cxa_demangle(ti->name(), 0, 0, &st) : 0;
    what = std::string("uncaught exception ") + (dn ? dn : "?");
    try { throw; } catch (std::exception &e) { what += std::string(": ") + e.what(); } catch (...) {}
    job->reason = what; job->reason_rank = t->rank;
    job_abort_now(JOB_ABORTED);
  }
}
static void fiber_entry() {
  Task *t = cur;
  run_body(t);
  t->done = true;
  in_host = 0;
  to_scheduler();
  abort();
}
static Task *new_task(int rank, int thread, std::function<void()> body) {
  Task *t = new Task;
  t->id = job->tasks.size(); t->rank = rank; t->thread = thread; t->body = std::move(body);
  if (!free_stacks.empty()) { t->stack = free_stacks.back(); free_stacks.pop_back(); }
  else {
    t->stack = (char*)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(t->stack, 4096, PROT_NONE);
  }
  t->stack_size = STACK + 4096;
  uintptr_t top = ((uintptr_t)t->stack + t->stack_size - 64) & ~(uintptr_t)15;
  void **sp = (void**)top;
  *--sp = nullptr;                 // alignment: at entry rsp % 16 == 8
  *--sp = (void*)fiber_entry;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  --sp; ((uint32_t*)sp)[0] = 0x1f80; ((uint16_t*)sp)[2] = 0x037f;
  t->sp = sp;
  job->tasks.push_back(t);
  ++job->live;
  return t;
}

[[noreturn]] static void job_abort_now(int outcome) {
  job->ended = true; job->outcome = outcome;
  trace("JOB ENDS: %s (process %d)", job->reason.c_str(), job->reason_rank);
  mix(outcome + 77);
  EhGlobals *g = eh(); *g = sched_eh;
  void *dummy;
  sim_switch(&dummy, sched_sp);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduler
static int strategy; static int victim; static double stick; static std::vector<uint64_t> prio; static std::vector<long> change_pts;
static long steps_in_job, crash_at = -1, step_cap;
static Task *last_task;
static int rr;

struct Act { bool deliver; int id; Task *t; };

static uint64_t pick_generate(const std::vector<Act> &a) {
  size_t n = a.size();
  auto pr = [&](const Act &x) -> uint64_t { size_t k = x.deliver ? 64 + (x.id % 256) : (x.t->id % 64);
    while (prio.size() <= k) prio.push_back(srng.next() >> 1); return prio[k]; };
  switch (strategy) {
    case 0: return srng.below(n);
    case 1: // sticky: keep running the same process most of the time
      if (srng.unit() < stick) return 0;
      return srng.below(n);
    case 2: { // random priorities with change points
      for (long c : change_pts) if (c == steps_in_job) { size_t i = srng.below(n); pr(a[i]); size_t k = a[i].deliver ? 64 + (a[i].id % 256) : (a[i].t->id % 64); prio[k] = srng.below(1000); }
      size_t b = 0; for (size_t i = 1; i < n; ++i) if (pr(a[i]) > pr(a[b])) b = i; return b; }
    case 3: { // one stalled process: moves only when nothing else can
      std::vector<size_t> o; for (size_t i = 0; i < n; ++i) if (!( !a[i].deliver && a[i].t->rank == victim)) o.push_back(i);
      if (o.empty() || srng.unit() < 0.002) return srng.below(n);
      return o[srng.below(o.size())]; }
    case 4: { // slow network: processes run as far as they can before anything arrives
      std::vector<size_t> o; for (size_t i = 0; i < n; ++i) if (!a[i].deliver) o.push_back(i);
      if (o.empty() || srng.unit() < 0.01) return srng.below(n);
      return o[srng.below(o.size())]; }
    case 5: { // round robin over processes, network first
      for (size_t i = 0; i < n; ++i) if (a[i].deliver) return i;
      size_t b = 0; int best = 1 << 30;
      for (size_t i = 0; i < n; ++i) { int d = (a[i].t->id - rr - 1 + 1024) % 1024; if (d < best) { best = d; b = i; } }
      return b; }
    default: { // newest message / highest process first
      return n - 1; }
  }
}

static void run_task(Task *t) {
  sched_eh = *eh();
  EhGlobals *g = eh(); g->caught = t->eh_caught; g->uncaught = t->eh_uncaught;
  cur = t; rr = t->id;
  int h = in_host;
  sim_switch(&sched_sp, t->sp);
  in_host = h;
  *eh() = sched_eh;
  cur = nullptr;
  if (t->done) { if (!job->ended) { --job->live; free_stacks.push_back(t->stack); t->stack = nullptr; } }
}

static void schedule_loop() {
  std::vector<Act> acts; std::vector<int> chans;
  while (!job->ended && job->live > 0) {
    acts.clear(); chans.clear();
    if (last_task && !last_task->done && (!last_task->cond || last_task->cond(last_task->cond_arg)))
      acts.push_back({false, last_task->id, last_task});
    net_deliverable(chans);
    for (int c : chans) acts.push_back({true, c, nullptr});
    for (Task *t : job->tasks)
      if (t != last_task && !t->done && (!t->cond || t->cond(t->cond_arg))) acts.push_back({false, t->id, t});
    if (acts.empty()) {
      std::string s;
      for (Task *t : job->tasks) if (!t->done) {
        char b[200]; snprintf(b, sizeof b, "%sprocess %d waits in %s", s.empty() ? "" : "; ", t->rank, t->what); s += b;
      }
      sim_fail("deadlock", "no process can continue and no message is in flight: %s", s.c_str());
    }
    if (crash_at >= 0 && steps_in_job >= crash_at) {
      sim_fault_fired("crash:job-killed");
      job->ended = true; job->outcome = JOB_KILLED; job->reason = "killed"; mix(99); return;
    }
    if (++steps_in_job > step_cap)
      sim_fail("livelock", "the job has not ended after %ld scheduling steps", step_cap);
    uint64_t k = decide(SIM_SCHED, acts.size(), [&] { return pick_generate(acts); });
    Act a = acts[k];
    ++R->steps; now_s += 1e-6;
    uint64_t code = a.deliver ? 1000 + a.id : a.id;
    R->sched_hash = (R->sched_hash ^ (code + 3)) * 0x100000001b3ull;
    if (a.deliver) { now_s += 5e-6; net_deliver(a.id); }
    else { a.t->cond = nullptr; last_task = a.t; run_task(a.t); }
  }
}
} // namespace sim

extern "C" void sim_point(const char *what) {
  if (!cur) return;
  Host h;
  cur->what = what; cur->cond = nullptr;
  to_scheduler();
}
extern "C" void sim_wait(int (*cond)(void*), void *arg, const char *what) {
  if (!cur) sim_harness_error("blocking call %s outside a simulated process", what);
  Host h;
  if (cond(arg)) return;
  cur->what = what; cur->cond = cond; cur->cond_arg = arg;
  to_scheduler();
}
void sim::wait_until(const char *what, const std::function<bool()> &f) {
  sim_wait([](void *p) -> int { return (*(const std::function<bool()>*)p)(); }, (void*)&f, what);
}
extern "C" void sim_parallel(int nthreads, void (*body)(void*, int), void *arg) {
  Host h;
  if (!cur) sim_harness_error("sim_parallel outside a simulated process");
  std::vector<Task*> ts;
  for (int i = 0; i < nthreads; ++i) ts.push_back(new_task(cur->rank, i, [=] { body(arg, i); }));
  wait_until("parallel region", [&] { for (Task *t : ts) if (!t->done) return false; return true; });
}

extern "C" void sim_spawn(void (*body)(void*, int), void *arg, int thread) {
  Host h;
  if (!cur) sim_harness_error("sim_spawn outside a simulated process");
  if (thread < 1) sim_harness_error("sim_spawn: thread numbers start at 1");
  new_task(cur->rank, thread, [=] { body(arg, thread); });
}
extern "C" void sim_join(void) {
  Host h;
  if (!cur) return;
  int r = cur->rank; Task *me = cur;
  wait_until("waiting for the threads", [&] { for (Task *t : job->tasks) if (t->rank == r && t != me && t->thread > 0 && !t->done) return false; return true; });
}

// ---------------------------------------------------------------- jobs and process images
namespace sim {
static std::vector<void*> images;
static int next_image = 1;
bool load_images(const char *so, int count, std::string &err) {
  FILE *f = fopen(so, "rb"); if (!f) { err = std::string("cannot read ") + so; return false; }
  std::vector<char> b; char tmp[65536]; size_t k;
  while ((k = fread(tmp, 1, sizeof tmp, f)) > 0) b.insert(b.end(), tmp, tmp + k);
  fclose(f);
  std::vector<int> fds;
  for (int i = 0; i < count; ++i) {
    char nm[64]; snprintf(nm, sizeof nm, "img%d", i);
    int fd = memfd_create(nm, 0);
    for (size_t o = 0; o < b.size();) { ssize_t w = write(fd, b.data() + o, b.size() - o); if (w <= 0) { err = "memfd write"; return false; } o += w; }
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    void *h = dlopen(p, RTLD_LAZY | RTLD_LOCAL);
    if (!h) { err = dlerror(); return false; }
    // the loader recognises loaded objects by path: each image needs a path of its own
    for (void *o : images) if (o == h) { err = "two process images are the same object"; return false; }
    fds.push_back(fd); images.push_back(h);
  }
  for (int fd : fds) close(fd);
  return true;
}
static std::string last_reason; static int last_reason_rank; static long last_steps;
} // namespace sim

extern "C" int sim_launch(int n, int entry, void *shared) {
  Host h;
  if (cur) sim_harness_error("sim_launch inside a simulated process");
  if (next_image + n > (int)images.size()) sim_harness_error("out of process images");
  Job j; job = &j; j.n = n;
  R->jobs++; if (n > R->maxranks) R->maxranks = n;
  trace("LAUNCH job of %d processes (entry %d)", n, entry);
  mix(n); steps_in_job = 0; last_task = nullptr; step_cap = 400000;
  victim = srng.below(n);
  net_reset(n); h5_reset_job(); fs_reset_job();
  for (int r = 0; r < n; ++r) {
    auto fn = (void(*)(int, void*))dlsym(images[next_image++], "sim_rank_main");
    if (!fn) sim_harness_error("no sim_rank_main");
    new_task(r, 0, [=] { fn(entry, shared); });
  }
  schedule_loop();
  crash_at = -1;
  int out = j.outcome;
  last_reason = j.reason; last_reason_rank = j.reason_rank; last_steps = steps_in_job;
  cur = nullptr;
  net_end_of_job(); h5_end_of_job(out);
  for (Task *t : j.tasks) { if (t->stack && t->done) free_stacks.push_back(t->stack); }
  trace("JOB DONE outcome=%d steps=%ld", out, steps_in_job);
  mix(out);
  job = nullptr;
  in_host = 1;
  return out;
}
extern "C" const char *sim_job_reason(void) { return last_reason.c_str(); }
extern "C" int sim_job_reason_rank(void) { return last_reason_rank; }
extern "C" long sim_last_steps(void) { return last_steps; }
extern "C" void sim_crash_after(long s) { crash_at = s; }
extern "C" void sim_job_abort(const char *fmt, ...) {
  ++in_host;
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!cur) {
    // Not inside a simulated process: the director itself ran into it.
    sim_harness_error("director: %s", b);
  }
  job->reason = b; job->reason_rank = cur->rank;
  job_abort_now(JOB_ABORTED);
}

// ---------------------------------------------------------------- process-ending calls
extern "C" void __assert_fail(const char *a, const char *file, unsigned line, const char *fn) noexcept {
  const char *b = strrchr(file, '/');
  if (!in_run) { fprintf(stderr, "host assertion %s %s:%u\n", a, file, line); _exit(3); }
  (void)fn;
  sim_job_abort("assertion failed: %s (%s)", a, b ? b + 1 : file);
}
extern "C" void abort(void) noexcept {
  if (!in_run) { fprintf(stderr, "host abort\n"); _exit(3); }
  sim_job_abort("abort()");
}
extern "C" void exit(int code) noexcept {
  if (!in_run) {
    fflush(stdout); fflush(stderr);
    _exit(code);
  }
  sim_job_abort("exit(%d)", code);
}

// ---------------------------------------------------------------- allocator seam
namespace {
struct Hdr { size_t size; uint32_t magic; uint32_t flags; Hdr *prev, *next; uint64_t red[4]; }; // 64 bytes
const uint32_t MAGIC = 0x51A110CA, FREED = 0xDEADF4EE;
const uint64_t RED = 0xA5C3A5C3A5C3A5C3ull;
Hdr *live_head = nullptr; std::deque<Hdr*> *quar = nullptr; size_t quar_bytes = 0;
struct AllocState { long n = 0, fail = -1; int fired = 0; } alloc_of[66]; // one per simulated process, the last for the director
AllocState &alloc_state() { int r = sim_rank(); return alloc_of[r >= 0 && r < 65 ? r : 65]; }
size_t live_bytes = 0; int track = 0;
enum { TRACKED = 1, COUNTED = 2 };

void check_block(Hdr *h, const char *when) {
  if (h->magic != MAGIC && h->magic != FREED) sim_fail("heap-corruption", "%s: block header overwritten", when);
  for (int i = 0; i < 4; ++i) if (h->red[i] != RED) sim_fail("heap-corruption", "%s: write before a block of %zu bytes", when, h->size);
  unsigned char *e = (unsigned char*)(h + 1) + h->size;
  for (int i = 0; i < 32; ++i) if (e[i] != 0xA5) sim_fail("heap-corruption", "%s: write past the end of a block of %zu bytes", when, h->size);
}
void check_freed(Hdr *h) {
  check_block(h, "freed block");
  unsigned char *p = (unsigned char*)(h + 1);
  for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xDD) sim_fail("use-after-free", "a freed block of %zu bytes was written to (offset %zu)", h->size, i);
}
void *do_alloc(size_t n, bool nothrow) {
  bool tracked = in_run && in_host == 0;
  if (tracked) {
    AllocState &a = alloc_state(); ++a.n;
    if (a.fail >= 0 && a.fail-- == 0) {
      a.fired++; sim_fault_fired("alloc:bad_alloc");
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    if (n > (size_t)1 << 32) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  Hdr *h = (Hdr*)malloc(sizeof(Hdr) + n + 32);
  if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  h->size = n; h->magic = MAGIC; h->flags = 0; h->prev = h->next = nullptr;
  if (tracked) {
    h->flags = TRACKED | (track ? COUNTED : 0);
    if (track) live_bytes += n;
    for (int i = 0; i < 4; ++i) h->red[i] = RED;
    memset(h + 1, 0xCB, n);
    memset((char*)(h + 1) + n, 0xA5, 32);
    h->next = live_head; if (live_head) live_head->prev = h; live_head = h;
  }
  return h + 1;
}
void do_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr*)p - 1;
  if (h->magic == FREED) { if (in_run) sim_fail("double-free", "a block of %zu bytes is freed twice", h->size); return; }
  if (h->magic != MAGIC) { if (in_run) sim_fail("bad-free", "freeing a pointer that was not allocated"); return; }
  if (!(h->flags & TRACKED)) { h->magic = 0; free(h); return; }
  check_block(h, "at release");
  if (h->flags & COUNTED) live_bytes -= h->size;
  if (h->prev) h->prev->next = h->next; else live_head = h->next;
  if (h->next) h->next->prev = h->prev;
  h->magic = FREED;
  memset(h + 1, 0xDD, h->size);
  Host hh;
  if (!quar) quar = new std::deque<Hdr*>;
  quar->push_back(h); quar_bytes += h->size;
  while (quar_bytes > (24u << 20)) { Hdr *o = quar->front(); quar->pop_front(); quar_bytes -= o->size; check_freed(o); o->magic = 0; free(o); }
}
} // namespace
void *operator new(size_t n) { return do_alloc(n, false); }
void *operator new[](size_t n) { return do_alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, true); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, true); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { do_free(p); }

extern "C" void sim_alloc_fail_at(long n) { AllocState &a = alloc_state(); a.fail = n; a.n = 0; a.fired = 0; }
extern "C" long sim_alloc_count(void) { return alloc_state().n; }
extern "C" int sim_alloc_fired(void) { return alloc_state().fired; }
extern "C" size_t sim_heap_live(void) { return live_bytes; }
extern "C" void sim_heap_track(int on) { track = on; }
extern "C" void sim_heap_check(void) {
  Host h;
  for (Hdr *b = live_head; b; b = b->next) check_block(b, "live block");
  if (quar) for (Hdr *b : *quar) check_freed(b);
}

// ---------------------------------------------------------------- one run
namespace sim {
static void on_signal(int s) {
  if (s == SIGPROF) { snprintf(R->cls, sizeof R->cls, "hang"); snprintf(R->msg, sizeof R->msg, "process %d does not return (no simulator call for 20 s of CPU time)", cur ? cur->rank : -1); }
  else { snprintf(R->cls, sizeof R->cls, "signal-%d", s); snprintf(R->msg, sizeof R->msg, "process %d died with signal %d (%s)", cur ? cur->rank : -1, s, strsignal(s)); }
  R->status = 2;
  if (trace_f) { fprintf(trace_f, "VIOLATION %s: %s\n", R->cls, R->msg); fflush(trace_f); }
  _exit(0);
}
[[noreturn]] void execute_run(const Config &c, RunResult *r) {
  R = r; cfg = c; in_host = 1;
  memset((void*)R, 0, offsetof(RunResult, rec));
  if (!c.trace_path.empty()) trace_f = fopen(c.trace_path.c_str(), "w");
  int dn = open("/dev/null", O_RDWR); if (!getenv("SIM_KEEP_OUTPUT")) { dup2(dn, 1); dup2(dn, 2); }
  for (int i = 0; i < SIM_NSTREAMS; ++i) { rng[i].s = c.seed * 0x9E3779B97F4A7C15ull + 0x1234567ull * (i + 1); rng[i].next(); replay_pos[i] = 0; }
  srng.s = c.seed ^ 0x5eed5eed5eedull; srng.next();
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, 0);
  itimerval tv{}; tv.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &tv, 0);
  itimerval tw{}; tw.it_value.tv_sec = 300; signal(SIGALRM, SIG_DFL); setitimer(ITIMER_REAL, &tw, 0);
  // schedule generation parameters (not recorded: the resulting choices are)
  strategy = srng.below(10); if (strategy > 6) strategy -= 7;
  stick = 0.5 + 0.49 * srng.unit();
  for (int i = 0, n = 1 + srng.below(4); i < n; ++i) change_pts.push_back(srng.below(400));
  drng.s = sim_choose(SIM_PLAN, 1u << 31) * 0x2545F4914F6CDD1Dull + 1;
  // network conditions of this run
  sim_net.eager_limit = (long)(const long[]){-1, 0, 16, 256, 65536, 1 << 30}[sim_choose(SIM_FAULT, 6)];
  sim_net.reorder = sim_choose(SIM_FAULT, 2);
  sim_net.delay = sim_choose(SIM_FAULT, 2);
  sim_net.reduce_any_order = sim_choose(SIM_FAULT, 2);
  sim_net.strict_collectives = sim_choose(SIM_FAULT, 2);
  auto fn = (void(*)(const char*, int))dlsym(images[0], "sim_director");
  if (!fn) sim_harness_error("no sim_director");
  in_run = true; in_host = 1;
  fn(c.property.c_str(), c.tier);
  sim_heap_check();
  finish_process(1);
}
} // namespace sim

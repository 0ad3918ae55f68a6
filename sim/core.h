// Host-internal interface of the simulator core.
#pragma once
#include "sim.h"
#include <stdarg.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>

namespace sim {

// Marks a section as simulator code: allocations in it are never faulted or tracked.
extern int in_host;
struct Host { Host() { ++in_host; } ~Host() { --in_host; } };

constexpr int MAXREC = 1 << 15;
constexpr int MAXNAMES = 96;
struct Named { char name[44]; uint64_t n; };

// Lives in shared memory; filled in by the process that executes one simulated run.
struct RunResult {
  int status;            // 0 nothing, 1 held, 2 violation, 3 harness error
  char cls[96];
  char msg[3000];
  uint64_t hash, sched_hash, plan_hash;
  long steps; double simtime; int nontrivial; int jobs; int maxranks;
  Named faults[MAXNAMES]; Named probes[MAXNAMES];
  char sample[600];
  uint32_t nrec[SIM_NSTREAMS];
  uint32_t rec[SIM_NSTREAMS][MAXREC];
};

struct Config {
  uint64_t seed = 0;
  bool replay = false;                         // use the recorded streams below
  std::vector<uint32_t> rec[SIM_NSTREAMS];
  std::string trace_path;                      // write a readable trace there ("" = none)
  std::string property; int tier = 0;
};

extern RunResult *R;
extern Config cfg;

struct Task {
  int id, rank, thread;
  void *sp = nullptr; char *stack = nullptr; size_t stack_size = 0;
  bool done = false, started = false;
  int (*cond)(void*) = nullptr; void *cond_arg = nullptr;
  const char *what = "";
  void *eh_caught = nullptr; unsigned eh_uncaught = 0;
  std::function<void()> body;
  Task *parent = nullptr;
};

extern Task *cur;
struct Job {
  int n = 0; std::vector<Task*> tasks; bool ended = false; int outcome = JOB_OK;
  std::string reason; int reason_rank = -1; int live = 0;
};
extern Job *job;

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);
void wait_until(const char *what, const std::function<bool()> &f); // blocks the current task
[[noreturn]] void vfail(const char *cls, const char *fmt, va_list ap);

// network side (mpi.cpp)
void net_reset(int n);
int  net_deliverable(std::vector<int> &channels);   // channels with a message in flight
void net_deliver(int channel);
std::string net_describe_blocked(int rank);
void net_end_of_job();
// storage side
void h5_reset_job();
void h5_end_of_job(int outcome);
void fs_reset_job();

// execution of one run in this process (called in the forked child); never returns
[[noreturn]] void execute_run(const Config &c, RunResult *r);
bool load_images(const char *so, int count, std::string &err);
void bump(Named *tab, const char *name, uint64_t by = 1);
} // namespace sim

// Public interface between the simulator host and the simulated programs (rank images).
// Everything here is plain C linkage; the host exports it, rank images import it.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- choice streams: every nondeterministic decision comes from here -------------------------
enum { SIM_PLAN = 0, SIM_SCHED = 1, SIM_FAULT = 2, SIM_DATA = 3, SIM_NSTREAMS = 4 };
uint64_t sim_choose(int stream, uint64_t n);                    // uniform in [0,n)
uint64_t sim_choose_p(int stream, uint64_t n, double p_nonzero); // 0 with prob 1-p, else uniform in [1,n)
uint64_t sim_data64(void);                                       // one 64-bit data word (SIM_DATA)

// ---- identity --------------------------------------------------------------------------------
int  sim_rank(void);      // world rank of the running simulated process (-1: director)
int  sim_nranks(void);    // size of the running job
double sim_now(void);     // simulated seconds

// ---- scheduling ------------------------------------------------------------------------------
void sim_point(const char *what);                               // preemption point
void sim_wait(int (*cond)(void*), void *arg, const char *what); // block until cond holds
// Logical threads inside one simulated process (used by the simulated execution space).
void sim_parallel(int nthreads, void (*body)(void *arg, int thread), void *arg);
void sim_spawn(void (*body)(void *arg, int thread), void *arg, int thread); // starts a logical thread (number from 1) and returns
void sim_join(void);     // waits for all threads started by this process
int  sim_thread(void);   // logical thread index inside sim_parallel, else 0

// ---- verdicts --------------------------------------------------------------------------------
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // goes into trace and hash
void sim_probe(const char *name);                    // "this rare condition was reached"
void sim_fault_fired(const char *kind);              // a fault kind actually fired
void sim_nontrivial(void);                           // this run exercised the property
void sim_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // description of this case

// ---- jobs ------------------------------------------------------------------------------------
enum { JOB_OK = 0, JOB_ABORTED = 1, JOB_KILLED = 2 };
// Start nranks fresh simulated processes that each call sim_rank_main(entry, shared); run them under
// the seeded scheduler until the job ends. Deadlock and livelock are reported as violations.
int  sim_launch(int nranks, int entry, void *shared);
const char *sim_job_reason(void);   // why the last job aborted
int  sim_job_reason_rank(void);
int  sim_leftover_messages(void);   // messages sent but never received in the last job
int  sim_leftover_requests(void);
int  sim_open_collectives(void);    // collective operations not entered by every member
int  sim_live_comms(void);          // communicator handles never freed in the last job
void sim_crash_after(long steps);   // kill the job at that scheduler step (<0: never)
long sim_last_steps(void);
void sim_job_abort(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

// ---- per-job knobs ---------------------------------------------------------------------------
typedef struct {
  long eager_limit;     // messages up to this size may complete before being received (-1: none)
  int  reorder;         // process placement may be permuted by Cartesian communicators
  int  delay;           // message delivery is a separate scheduled event
  int  reduce_any_order;// reductions may combine contributions in any order
  int  strict_collectives; // collective calls synchronise even where the standard lets them return early
} sim_net_t;
extern sim_net_t sim_net;

// ---- allocation faults -----------------------------------------------------------------------
void sim_alloc_fail_at(long n);   // the n-th allocation from now on by simulated code throws (0: next; <0 off)
long sim_alloc_count(void);       // allocations since the last call of sim_alloc_fail_at
int  sim_alloc_fired(void);
void sim_heap_check(void);        // verify red zones and freed blocks
size_t sim_heap_live(void);       // bytes allocated by simulated code and not yet freed
void sim_heap_track(int on);      // only blocks allocated while on count as live

// ---- simulated disk --------------------------------------------------------------------------
// File paths below /sim/ live on the simulated disk.
enum { DF_NONE=0, DF_OPEN=1, DF_WRITE=2, DF_SHORT=3, DF_CLOSE=4, DF_READ=5, DF_EINTR=6, DF_SHORTREAD=7 };
void sim_disk_clear(void);
void sim_disk_put(const char *path, const void *data, size_t n);
long sim_disk_size(const char *path);                   // -1: absent
size_t sim_disk_get(const char *path, size_t off, void *buf, size_t n);
int  sim_disk_count(void);
const char *sim_disk_name(int i);
void sim_disk_fault(int kind, long nth);                // the nth matching operation fails
int  sim_disk_faults_fired(void);
int  sim_disk_hard_fired(void);                         // without short reads, short writes and interrupted calls
int  sim_disk_open_handles(void);

// ---- simulated HDF5 files --------------------------------------------------------------------
enum { HF_NONE=0, HF_CREATE=1, HF_OPEN=2, HF_DCREATE=3, HF_DWRITE=4, HF_DREAD=5, HF_CLOSE=6, HF_ACREATE=7, HF_AWRITE=8, HF_DCLOSE=9, HF_DOPEN=10 };
// the nth operation of that kind (counted over the job) fails; one_rank: only on one process
void sim_h5_fault(int kind, long nth, int one_rank);
int  sim_h5_faults_fired(void);
int  sim_h5_file_count(void);
const char *sim_h5_file_name(int i);
int  sim_h5_file_state(const char *path);    // -1 absent, 0 open or torn, 1 complete
int  sim_h5_dataset_count(const char *path);
const char *sim_h5_dataset_name(const char *path, int i);
int  sim_h5_dataset_rank(const char *path, const char *ds);
int  sim_h5_dataset_dim(const char *path, const char *ds, int d);
int  sim_h5_dataset_get(const char *path, const char *ds, size_t index, double *v); // 1: written, 0: never written, -1 absent
int  sim_h5_attr_count(const char *path, const char *ds);
int  sim_h5_attr_get(const char *path, const char *ds, const char *name, int idx, double *v);
int  sim_h5_open_handles(void);       // files, datasets, attributes, dataspaces left open at the end of the last job
int  sim_h5_open_access_lists(void);  // file access lists that still hold a communicator at the end of the last job
void sim_h5_crash(void);  // files not closed become torn
void sim_h5_clear(void);
int  sim_h5_incomplete_collectives(void); // collective calls not made by every process of the last job
const char *sim_h5_incomplete_what(void);

// ---- entry points every rank image defines -----------------------------------------------------
void sim_director(const char *property, int tier);     // plans, launches, judges
void sim_rank_main(int entry, void *shared);

#ifdef __cplusplus
}
#endif

// Interface between the simulator host (one process, all ranks) and the rank images
// (one dlopen'ed copy of the real DNDSR code per simulated rank).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
// choice channels: every nondeterministic decision of a run is a numbered draw on one of these
enum { CH_PLAN = 0, CH_SCHED = 1, CH_NET = 2, CH_FAULT = 3, CH_DATA = 4, CH_N = 5 };
uint32_t sim_choose(int channel, uint32_t n); // in [0,n); 0 is always the simplest choice
uint64_t sim_rand64(int channel);             // raw value (recorded as two draws)
int sim_rank(void);
int sim_nranks(void);
int sim_tid(void);
int64_t sim_now(void);   // simulated nanoseconds
uint64_t sim_step(void); // global event sequence number
void sim_yield(void);    // a scheduling point
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_probe(const char *name);
void sim_probe_n(const char *name, uint64_t n);
void sim_sample(const char *s); // one line describing this run (kept for the evidence)
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event log (only in trace mode)
void sim_mix(uint64_t v); // mix an observed value in the run's history hash
void sim_expect_abort(int on); // an abort()/MPI_Abort/exception of the workload is an accepted outcome (ends the run)
const char *sim_scratch(void);
const char *sim_workdir(void); // a private scratch directory of this run
void sim_setenv(const char *k, const char *v); // planned environment knobs (set before ranks start)
// simulated run configuration (set by the plan, read by the scheduler)
struct sim_cfg
{
    int nranks;
    int eager_mode;   // 0 all eager, 1 all rendezvous, 2 random per message, 3 by size (threshold)
    int eager_limit;  // bytes
    int policy;       // 0 run-to-block, 1 uniform random, 2 priorities with change points, 3 starve one rank, 4 round robin
    int starve_rank;
    int yield_pct;    // chance (%) to offer a switch at an MPI call
    int net_pct;      // chance (%) to advance the network before a rank
    int late_coll;    // %: collectives complete late
    int sync_coll;    // rooted collectives synchronise
    int poison;       // receive regions hold garbage from match to completion
    int test_miss;    // %: MPI_Test* on a complete request says "not yet"
    int omp_threads;
    int io_faults;    // file faults enabled
    int io_fault_after; // the n-th data transfer of the armed kind fails (0: never)
    int io_fault_kind;  // 0 none 1 EIO on write 2 ENOSPC (sticky) 3 short write 4 EIO on read 5 short read 6 open fails 7 close fails
    int io_fault_sticky;
    int io_fault_inc;   // the incarnation the file faults apply to
    int clock_skew;   // per-rank clock offset/jumps
    int stall_pct;
    int incarnations; // 1, or 2: when the job of the first incarnation ended or was killed, fresh processes start
    int crash_step;   // the job is killed this many scheduler steps into the first incarnation (0: never)
    int crash_io;     // the job is killed at its n-th file transfer (0: never)
    int nranks2;      // rank count of the second incarnation (0: the same)
    int long_run;     // the step budget is 1 + this many times the usual one
};
int sim_incarnation(void);  // 0, 1
int sim_job_killed(void);   // the previous incarnation did not end by itself
struct sim_cfg *sim_config(void);
// simulated parallel file store
int64_t sim_file_size(const char *name);                                // -1 if absent
int sim_file_get(const char *name, int64_t off, void *buf, int64_t n);  // raw bytes, no faults
int sim_file_put(const char *name, int64_t off, const void *buf, int64_t n);
void sim_file_truncate(const char *name, int64_t n);
void sim_file_crash(void);             // lose/tear what was not made durable
uint64_t sim_io_faults_fired(void);
uint64_t sim_io_ops(void);
uint64_t sim_io_events(void); // what crash_io counts

typedef struct wl_entry
{
    const char *name;
    void *(*plan)(void);             // draws the scenario (CH_PLAN), runs once, before the ranks
    void (*rank)(void *plan, int r); // one simulated rank
    void (*finish)(void *plan);      // history checks after all ranks ended
} wl_entry;
// each image exports: extern "C" const wl_entry *wl_table(int *n);
#ifdef __cplusplus
}
#endif

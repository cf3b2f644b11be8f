// Simulator runtime: the seams between the code under test and the outside.
// One simulated thread runs at a time; which one, and which calls fail, is
// decided by the plan (drawn from a seed while exploring, explicit when
// replaying).  Nothing here reads a real clock or draws real randomness.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

enum Fault {
  F_ALLOC,      // operator new / malloc fails                       (ordinal)
  F_THREAD,     // pthread_create returns EAGAIN                     (ordinal)
  F_FOPEN,      // opening a simulated file fails with errno arg     (ordinal)
  F_READERR,    // read() fails with EIO, for good                   (ordinal)
  F_READSHORT,  // read() returns at most arg bytes                  (ordinal)
  F_READINTR,   // read() fails once with EINTR                      (ordinal)
  F_DISKFULL,   // the disk takes arg bytes in all, then ENOSPC      (always on)
  F_WRITEERR,   // write() fails with EIO, for good                  (ordinal)
  F_WRITESHORT, // write() takes at most arg bytes                   (ordinal)
  F_WRITEINTR,  // write() fails once with EINTR                     (ordinal)
  F_CLOSEERR,   // close reports EIO, file keeps arg/1000 of itself  (ordinal)
  F_STDOUT,     // standard output takes arg bytes, then fails       (always on)
  F_DEVENUM,    // device enumeration throws                         (ordinal)
  F_QUEUE,      // queue creation throws                             (ordinal)
  F_BUFFER,     // device buffer allocation throws                   (ordinal)
  F_SUBMIT,     // command submission throws                         (ordinal)
  F_HOSTACC,    // mapping a buffer to the host throws               (ordinal)
  F_ASYNC,      // a command fails on the device; wait reports it    (ordinal)
  F_SPURIOUS,   // spurious condition variable wake-up               (ordinal)
  F_RENAME,     // rename of a simulated file fails with EACCES       (ordinal)
  F_N
};
extern const char* const fault_names[F_N];

enum Probe {
  P_THREADS, P_MUTEX_BLOCK, P_RACY_GRANULE, P_OVERLAP_CALLS, P_KERNEL,
  P_WORKITEM, P_CMD_OOO, P_NOINIT, P_ALLOC, P_STALLED, P_READ, P_WRITE,
  P_CHUNKED, P_RECOMPUTE, P_TIGHT, P_FALLBACK, P_EXC, P_RETRY_OK, P_REFUSED,
  P_ROWS_MODEL, P_ROWS_STRUCT, P_ROWS_BASE, P_ROWS_KLIM, P_CLI_OK, P_CLI_ERR,
  P_SAVE_OK, P_SAVE_ERR, P_BIG, P_N
};
extern const char* const probe_names[P_N];

struct FaultSpec { int kind; uint64_t ord; int64_t arg; };
struct SwitchRec { uint64_t step; int32_t tid; };

enum Strategy { S_NONE, S_RANDOM, S_PCT, S_STALL, S_BURST, S_SYNC, S_REPLAY, S_N };
extern const char* const strategy_names[S_N];

struct Config {
  int strategy = S_NONE;
  uint64_t sched_seed = 1;
  uint64_t aux_seed = 1;      // garbage, permutations
  double quantum = 1000;
  int pct_depth = 3;
  uint64_t est_steps = 200000;
  uint64_t max_switches = 1500;
  uint64_t step_cap = 400000000ull;
  int hwconc = 4;
  int garbage = 0;            // 0 zeros 1 ff 2 random 3 small ints 4 ones
  int race_mode = 1;          // 0 off, 1 any, 2 between calls, 3 between device work items, 4 against the caller's own writes
  int mem_mode = 1;           // 0 off, 1 any access outside live blocks, 2 accesses to freed blocks only
  int ngpu = 0;
  int ngpu2 = -1;             // GPUs present from the second attempt on (-1: unchanged)
  int max_wg = 64;
  int cus = 2;
  const SwitchRec* replay = nullptr; size_t nreplay = 0;
  const FaultSpec* faults = nullptr; size_t nfaults = 0;
};

const size_t LOG_CAP = 65536;
struct Shared {               // survives the child's death
  volatile int verdict;       // 0 running, 1 ok, 2 violation, 3 harness error
  char cls[64];
  char msg[3000];
  uint64_t hash, steps, switches, nthreads, peak_threads, sim_ns;
  uint64_t fcount[F_N], fired[F_N], probes[P_N];
  uint64_t sig;               // interleaving signature
  uint64_t out_bytes;         // what the command line wrote
  uint32_t nlog;
  uint32_t log_overflow;
  SwitchRec log[LOG_CAP];
};

void init();                               // once, before any fork
void start(const Config&, Shared*);        // in the child, on the root thread
void stop();                               // ends the simulation
bool active();
void violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void harness_error(const char* fmt, ...) __attribute__((noreturn, format(printf,1,2)));
[[noreturn]] void inconclusive(const char* why);
void finish_ok() __attribute__((noreturn));
void probe(Probe, uint64_t n = 1);
void mix(uint64_t v);                      // add to the event hash
uint64_t aux();                            // auxiliary deterministic random number
struct Th;
Th* spawn(void (*fn)(void*), void* arg, const char* name);   // a simulated thread
void join(Th* th);
uint64_t step_now();
int cur_tid();
int live_threads();                        // threads not finished, root included
int64_t live_bytes();
uint64_t fired_total();
uint64_t fired(int kind);
void window(bool on);                      // faults of this thread fire only inside
void rearm(bool faults_on);                // restart the fault ordinals
void set_op(int op);                       // attribute faults of this thread and its children
uint32_t op_fired(int op);
void quiesce();                            // let every other thread run until done or blocked
void yield_point();
void touch_write(void* p, size_t n);       // a tracked write by the current thread
void* alloc_tracked(size_t n);             // arena memory for harness-owned data
void free_tracked(void*);
[[noreturn]] void end_thread_forever();    // park the current thread for good

struct Scope {                             // harness code: no scheduling, no faults
  Scope(); ~Scope();
};
struct Code {                              // inverse: code under test from harness code
  int saved; Code(); ~Code();
};

// simulated files (every path under /simfs/)
void fs_put(const char* path, const void* data, size_t n);
void fs_dir(const char* path);
bool fs_get(const char* path, void (*sink)(void*, const char*, size_t), void* ctx);

// SYCL runtime support
bool fault(int kind, int64_t* arg = nullptr);
struct BufState;
struct Req { BufState* buf; bool write; bool discard; };
BufState* buf_new(size_t bytes, const void* init);
void* buf_data(BufState*);
size_t buf_bytes(BufState*);
void buf_addref(BufState*);
void buf_release(BufState*);
void buf_set_final(BufState*, void* host);
void buf_host_open(BufState*, bool write, bool discard);
void buf_host_close(BufState*);
uint64_t cmd_submit(uint64_t queue, const Req* reqs, size_t n,
                    const uint64_t* evs, size_t nev,
                    void (*run)(void*), void* ctx, void (*del)(void*));
void cmd_wait(uint64_t cmd);
void queue_wait(uint64_t queue);
int take_async();                          // device errors not yet reported
uint64_t queue_new(bool in_order);
void launch(size_t groups, size_t local, const size_t* lbytes, size_t nl,
            void (*item)(void*, size_t g, size_t l), void* ctx);
void launch_range(size_t n, void (*item)(void*, size_t i), void* ctx);
void* local_ptr(size_t slot);
void group_barrier();
int ngpu();
void set_ngpu(int n);
int max_wg();
[[noreturn]] void device_oob(const char* what, size_t index, size_t size);
}

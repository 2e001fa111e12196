// Deterministic simulator runtime: tasks, scheduler, memory, race detection, files, clock, faults.
// Everything here lives in one process and one OS thread; a run is fully decided by SimCfg.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>

struct Rng {
  uint64_t s;
  static uint64_t mix(uint64_t z) { z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull; z = (z ^ (z >> 33)) * 0xc4ceb9fe1a85ec53ull; return z ^ (z >> 33); }
  explicit Rng(uint64_t seed = 1) : s(mix(seed + 0x1234567) ^ 0xA5A5A5A512345678ull) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

enum FaultKind { F_OPEN, F_READ, F_READP, F_SEEK, F_THREAD, F_MALLOC, F_CLOCK, F_SHORT, F_STALL, F_NKINDS };
extern const char* fault_names[F_NKINDS];
struct Fault { int kind; int client; long nth; long count; };   // the nth (from 1) call of that kind made by the client, and count-1 further ones

struct Switch { uint32_t task; uint32_t to; uint64_t step; };

struct SimCfg {
  // memory
  int fill = 1;        // 0 zero 1 0xCB 2 small ints 3 random 4 0xFF 5 stale
  int layout = 0;      // 0 bump (never reused) 1 LIFO reuse 2 random reuse
  int gap = 0;         // random padding between blocks
  int paint = 1;       // stack painting: 0 none 1 256 KB 2 5 MB
  uint64_t memseed = 1;
  // schedule
  int mode = 0;        // 0 random 1 pct 2 run to completion 3 round robin 4 eager child first 5 explicit list
  long mean = 500;     // mean interval (0,3), change points (1)
  uint64_t schedseed = 1;
  int racedir = 0;     // race-directed scheduling: percentage of conflicting accesses at which the task is held
  int stall = -1;      // the stall-th created task is starved while any other can run
  std::vector<Switch> list;
  // io
  int shortread = 0;   // maximal bytes delivered by one read (0: unlimited)
  int comma = 0;       // the locale of the process: the decimal point is a comma
  int stdiobuf = 0;    // size of stdio buffers (0: default)
  uint64_t ioseed = 1;
  int footprint = 250000000;
  std::vector<Fault> faults;
  uint64_t maxsteps = 60000000;
  bool memfatal = false, racefatal = false;   // report invalid accesses / data races as violations (else they take their native effect)
};

struct SimStats {
  uint64_t steps, switches, tasks, mallocs, bytes_read, reads, opens, simtime_ns, race_checks, mem_checks;
  uint64_t fired[F_NKINDS];
  uint32_t calls[8][F_NKINDS], calls0[8][F_NKINDS];   // calls that could have failed, per client; and up to the note
  uint64_t probe_reprocess, probe_multi, ilv_hash, maxlive, stale_waits, race_hits;
};

// result of a run, in memory shared with the parent
struct RunResult {
  volatile int status;   // 0 died, 1 passed, 2 violation, 3 fail-stop (allowed end after an injected allocation failure)
  char kind[32];
  char msg[3000];
  uint64_t hash, anshash;
  uint64_t pc[6];
  SimStats st;
  uint32_t nswitch, overflow;
  static const uint32_t MAXSW = 200000;
  uint64_t work;         // what the run compared: number of checked results
  uint64_t nonempty;
  static const uint32_t MAXLOG = 40000;
  uint32_t nlog;         // calls that could have failed, with the place they were made from
  uint8_t cov[65536];
  uint32_t ncov;
  struct Call { uint8_t client, kind; uint32_t nth, site; } log[MAXLOG];
  Switch sw[MAXSW];
};

extern RunResult* R;
void rt_init_process();                                   // once, before any fork
void rt_run(const SimCfg& cfg, std::function<void()> root);  // in the child; root runs as client 0
// --- callable from inside simulated tasks (harness side) ---
int  rt_spawn_client(int client, std::function<void()> fn);  // returns a task index
void rt_join(int task);
void rt_yield();
void rt_fail(const char* kind, const std::string& msg) __attribute__((noreturn));
void rt_add_file(const std::string& name, const std::string& content);
std::string* rt_file(const std::string& name);
void rt_hash(const void* p, size_t n);
uint64_t rt_live_bytes(); uint64_t rt_live_blocks(); uint64_t rt_peak_bytes(); void rt_reset_peak();
uint64_t rt_client_live(int client);
std::string rt_describe_live(int max);
int  rt_open_files();
bool rt_valid_range(const void* p, size_t n);
size_t rt_block_size(const void* p);   // size of the live block starting at p, or (size_t)-1
void rt_note();
void rt_failstop(const char* what);   // ends the run as a stop that a failed allocation excuses
uint64_t rt_fired(int kind); void rt_heal();   // no further faults from here on
uint64_t rt_steps();
void rt_paint_stack();
void rt_footprint(int n);
int rt_tasks_alive();
void rt_enter(); void rt_leave();   // bracket calls from the harness into instrumented code
struct InSim { InSim() { rt_enter(); } ~InSim() { rt_leave(); } };

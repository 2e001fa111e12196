#include <locale.h>
#include <sys/stat.h>
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <new>
#include <csignal>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <ctime>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <asm/prctl.h>
#include <link.h>
#include <cxxabi.h>
#include <algorithm>
#include <string>

typedef uintptr_t U;
const char* fault_names[F_NKINDS] = {"fopen_fails", "read_error_once", "read_error_persistent", "seek_fails", "thread_refused", "allocation_fails", "clock_jump", "short_read", "stalled_thread"};
RunResult* R;
extern "C" { int jpstream_sim_footprint = 250000000; extern char __data_start, _end; extern char __libc_single_threaded; }

// ---------------------------------------------------------------- address space
static const U ARENA = 0x10000000000ull, ARENA_SZ = 4ull << 30;
static const U STACKS = ARENA + ARENA_SZ, STACK_SZ = 8ull << 20;
static const int MAXT = 512;
static const U REGION_SZ = ARENA_SZ + MAXT * STACK_SZ;
static const U VALID = 0x20000000000ull;                 // one byte per arena byte
static const U RSH = 0x30000000000ull;                   // 32 bytes per 8 bytes of the region
static const U GSH = 0x3F000000000ull;                   // same for globals
static U gbase, gend;
static uint8_t* dirty;                                   // race shadow pages in use, one byte per 4 KB of the region

// ---------------------------------------------------------------- tasks
struct Task;
extern "C" void rt_swap(void** from_sp, void* to_sp);
asm(R"(
.text
.globl rt_swap
rt_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

struct Task {
  bool cloc = false;   // uses the C locale
  int idx; uint32_t uid; int client;
  void* sp; std::function<void()> fn; void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
  uint64_t steps = 0, next = ~0ull; size_t listpos = 0; std::vector<Switch> plan;
  int state = 0;            // 0 runnable 1 blocked 2 finished
  bool joined = false, detached = false; uint64_t stacklo = 0;
  const char* waiting = ""; const void* waitobj = nullptr; uint64_t lastsw = ~0ull;
  uint64_t prio = 0; bool stalled = false; int seq = 0; int fair = 0; uint64_t slicecap = 0;
  void* eh[2] = {0, 0}; int err = 0; std::string tls;
  std::map<unsigned, void*> keys;
  uint32_t vc[MAXT];
  Task() { memset(vc, 0, sizeof vc); }
};
static std::vector<Task*> tasks;
static Task* cur;                // the running task, null in the harness
static Task* last_run;
static int insim;                // instrumented code is running (allocations go to the arena)
static void* sched_sp;
static const SimCfg* C;
static Rng srng(1), mrng(1), irng(1);
static uint64_t totalsteps, base_steps;
static int race_on;              // more than one thread exists
static int unjoined;
static std::vector<uint64_t> changepts;
static uint64_t lowprio = 900000; static int fairs;   // priorities below all initial ones; how often a task gave way
static int ncreated;
static uint64_t clock_jump_ns; static int64_t clock_off;
static int fcount[16][F_NKINDS];
static uint64_t evhash = 1469598103934665603ull;
static char* altstack;
static size_t tls_size, tls_filesz; static const char* tls_init; 

void rt_hash(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { evhash ^= b[i]; evhash *= 1099511628211ull; } }
static void h64(uint64_t v) { evhash ^= v; evhash *= 1099511628211ull; evhash ^= evhash >> 29; }

static void counts(uint32_t (*d)[F_NKINDS]) { for (int i = 0; i < 8; i++) for (int k = 0; k < F_NKINDS; k++) d[i][k] = fcount[i][k]; }
void rt_note() { counts(R->st.calls0); }
static void finish(int status) {
  counts(R->st.calls);
  extern uint8_t __start___sancov_cntrs[] __attribute__((weak)); extern uint8_t __stop___sancov_cntrs[] __attribute__((weak));
  if (__start___sancov_cntrs) {
    size_t n = __stop___sancov_cntrs - __start___sancov_cntrs; if (n > sizeof R->cov) n = sizeof R->cov;
    for (size_t i = 0; i < n; i++) R->cov[i] = __start___sancov_cntrs[i] != 0; R->ncov = n;
  }
  uint64_t t = 0; for (Task* k : tasks) t += k->steps;
  R->st.steps = t; R->st.tasks = tasks.size(); R->hash = evhash; R->st.simtime_ns = t * 10 + clock_jump_ns;
  R->status = status;
  _exit(0);
}
void rt_fail(const char* kind, const std::string& msg) {
  cur = nullptr; insim = 0;
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
  h64(0xdead); rt_hash(kind, strlen(kind));
  finish(2);
}
static U callerpc[4];
static std::string fmt(const char* f, ...) { char b[800]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void allowed_failstop(const char* what) {
  // a process that ends because of an injected allocation failure lost nothing silently
  if (R->st.fired[F_MALLOC]) { snprintf(R->kind, sizeof R->kind, "failstop"); snprintf(R->msg, sizeof R->msg, "%s", what); cur = nullptr; insim = 0; finish(3); }
}
void rt_failstop(const char* what) { allowed_failstop(what); }
static void on_signal(int sig, siginfo_t* si, void*) {
  U a = (U)si->si_addr;
  if (sig == SIGVTALRM) rt_fail("hang", fmt("no progress within the real-time limit (task %u after %llu steps)", last_run ? last_run->uid : 0, last_run ? (unsigned long long)last_run->steps : 0));
  if ((sig == SIGSEGV && a < (1u << 20)) || sig == SIGABRT) allowed_failstop(sig == SIGABRT ? "abort" : "null dereference");
  const char* n = sig == SIGSEGV ? "invalid access" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "undefined behaviour trap" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "bus error" : "signal";
  std::string w = fmt("%s (signal %d) at address 0x%llx", n, sig, (unsigned long long)(sig == SIGABRT ? 0 : (a >= ARENA && a < VALID ? a : a < (1u << 20) ? a : 1)));
  if (last_run && a >= STACKS + last_run->idx * STACK_SZ - 4096 && a < std::max<U>(STACKS + last_run->idx * STACK_SZ + 4096, last_run->stacklo)) w = "stack exhausted";
  rt_fail("crash", w);
}

static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  if (info->dlpi_name && info->dlpi_name[0]) return 0;
  for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_TLS) {
    tls_size = info->dlpi_phdr[i].p_memsz; size_t al = info->dlpi_phdr[i].p_align; tls_size = (tls_size + al - 1) / al * al;
    tls_filesz = info->dlpi_phdr[i].p_filesz; tls_init = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
  }
  return 1;
}
static char* tls_area() { U fs; asm("movq %%fs:0,%0" : "=r"(fs)); return (char*)(fs - tls_size); }

static void mapfix(U a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { perror("mmap"); _exit(3); }
}
void rt_init_process() {
  mapfix(ARENA, REGION_SZ); mapfix(VALID, ARENA_SZ); mapfix(RSH, REGION_SZ * 4);
  gbase = (U)&__data_start & ~7ull; gend = ((U)&_end + 7) & ~7ull;
  mapfix(GSH, (gend - gbase) * 4 + 4096);
  dirty = (uint8_t*)mmap(0, REGION_SZ >> 12, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXT; i++) mprotect((void*)(STACKS + i * STACK_SZ), 4096, PROT_NONE);
  altstack = (char*)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  dl_iterate_phdr(phdr_cb, 0);
  __libc_single_threaded = 0;
}

// ---------------------------------------------------------------- vector clocks and the race detector
static inline void vc_join(uint32_t* a, const uint32_t* b) { for (size_t i = 0; i < tasks.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
struct SyncVC { uint32_t vc[MAXT]; SyncVC() { memset(vc, 0, sizeof vc); } };
static std::map<U, SyncVC*> syncvc;
static SyncVC* sv(const void* p) { SyncVC*& s = syncvc[(U)p]; if (!s) s = new SyncVC; return s; }
static void acquire(const void* p) { auto it = syncvc.find((U)p); if (it != syncvc.end()) vc_join(cur->vc, it->second->vc); }
static void release(const void* p) { vc_join(sv(p)->vc, cur->vc); cur->vc[cur->idx]++; }

static inline uint64_t* shadow_of(U a) {
  if (a - ARENA < REGION_SZ) { dirty[(a - ARENA) >> 12] = 1; return (uint64_t*)(RSH + ((a - ARENA) >> 3) * 32); }
  if (a >= gbase && a < gend) return (uint64_t*)(GSH + ((a - gbase) >> 3) * 32);
  return nullptr;
}
static std::string where(U a) {
  if (a - ARENA < ARENA_SZ) return "heap"; if (a - STACKS < MAXT * STACK_SZ) return fmt("stack of task %u", (unsigned)((a - STACKS) / STACK_SZ)); return "static data";
}
static void race_report(U a, int n, int w, uint64_t cell) {
  int ot = (int)((cell >> 48) & 0xffff) - 1;
  insim = 0; R->pc[0] = callerpc[0];
  rt_fail("race", fmt("unordered accesses to %d bytes of %s: %s by task %u, earlier %s by task %u", n, where(a).c_str(), w ? "write" : "read", cur->uid, (cell & 1) ? "write" : "read", tasks[ot]->uid));
}
// cell: tid+1:16 | clk:32 | mask:8 | unused:7 | w:1
static int rd_switch; static int race_seen;            // a conflicting unordered access was met (race-directed scheduling)
static inline void race_word(U a, unsigned mask, int w, int n) {
  uint64_t* s = shadow_of(a); if (!s) return;
  Task* t = cur; uint64_t me = ((uint64_t)(t->idx + 1) << 48) | ((uint64_t)t->vc[t->idx] << 16) | (mask << 8) | w;
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t c = s[i];
    if (c == me) return;
    if (!c) { if (slot < 0) slot = i; continue; }
    int ct = (int)(c >> 48) - 1; uint32_t clk = (uint32_t)(c >> 16); unsigned cm = (c >> 8) & 0xff;
    bool ordered = ct == t->idx || clk <= t->vc[ct];
    if (!ordered && (cm & mask) && (w || (c & 1))) { if (C->racefatal) race_report(a, n, w, c); race_seen = 1; }
    if (ordered && (cm & ~mask) == 0 && (w || !(c & 1))) { if (slot < 0) slot = i; else s[i] = 0; }
  }
  if (slot < 0) { // drop an ordered record, else a pseudo random one
    for (int i = 0; i < 4 && slot < 0; i++) { uint64_t c = s[i]; int ct = (int)(c >> 48) - 1; if (ct == t->idx || (uint32_t)(c >> 16) <= t->vc[ct]) slot = i; }
    if (slot < 0) slot = t->steps & 3;
  }
  s[slot] = me;
}
static void race_range(U a, size_t n, int w) {
  if (!n) return;
  R->st.race_checks++;
  U e = a + n;
  while (a < e) { U b = a & ~7ull; unsigned lo = a - b, hi = e - b > 8 ? 8 : e - b; race_word(b, (0xffu << lo) & (0xffu >> (8 - hi)) & 0xff, w, (int)n); a = b + 8; }
}
static void race_clear(U a, size_t n) {
  for (U p = a & ~4095ull; p < a + n; p += 4096) if (dirty[(p - ARENA) >> 12]) {
    U lo = p < a ? a : p, hi = p + 4096 < a + n ? p + 4096 : a + n;
    lo &= ~7ull; memset((void*)(RSH + ((lo - ARENA) >> 3) * 32), 0, ((hi - lo + 7) >> 3) * 32);
  }
}

// ---------------------------------------------------------------- scheduler
static const uint64_t FAIR = 3000000;   // longest uninterrupted run while others can run
static void plan_next(Task* t) {
  uint64_t lim = C->maxsteps > base_steps ? C->maxsteps - base_steps : 0;   // steps this slice may take
  uint64_t n = ~0ull;
  switch (C->mode) {
    case 0: { double u = ((srng.next() >> 11) + 1) * (1.0 / 9007199254740993.0); double g = -__builtin_log(u) * C->mean; n = t->steps + 1 + (uint64_t)g; break; }
    case 1: while (!changepts.empty() && changepts.back() < base_steps) changepts.pop_back(); if (!changepts.empty()) n = t->steps + (changepts.back() - base_steps) + 1; break;
    case 3: n = t->steps + C->mean; break;
    case 5: while (t->listpos < t->plan.size() && t->plan[t->listpos].step <= t->steps) t->listpos++; if (t->listpos < t->plan.size()) n = t->plan[t->listpos].step; break;
    default: break;
  }
  t->slicecap = 0;
  if (C->mode != 5 && n > t->steps + FAIR) { n = t->steps + FAIR; t->slicecap = n; }   // nobody runs for ever while others wait
  if (n > t->steps + lim) n = t->steps + lim + 1;
  t->next = n;
}
static std::vector<Task*> runnable() { std::vector<Task*> v; for (Task* t : tasks) if (t->state == 0) v.push_back(t); 
  if (C->stall >= 0 && v.size() > 1) { std::vector<Task*> w; for (Task* t : v) if (!t->stalled) w.push_back(t); if (!w.empty() && w.size() < v.size()) { R->st.fired[F_STALL]++; return w; } }
  return v; }
static Task* byuid(uint32_t u) { for (Task* t : tasks) if (t->uid == u) return t; return nullptr; }
static Task* want;     // set by a switch point: the next task, or null for the policy
// choose the next task; from: the task that just stopped
static Task* choose(Task* from, bool forced) {
  std::vector<Task*> v = runnable();
  if (v.empty()) return nullptr;
  if (C->mode == 5) {
    if (from) { for (size_t i = 0; i < from->plan.size(); i++) if (from->plan[i].step == from->steps) { Task* t = byuid(from->plan[i].to); if (t && t->state == 0) return t; } }
    if (from && from->state == 0) return from;
    return v[0];
  }
  if (from && from->fair) {   // it yielded or ran very long: others first, and a stalled task may be what it waits for
    from->fair = 0; if (C->mode == 1 || C->mode == 2 || C->mode == 4 || C->mode == 6) from->prio = --lowprio;
    if (++fairs == 60) { for (Task* t : tasks) t->stalled = false; v = runnable(); }
  }
  if (v.size() == 1) return v[0];
  if (rd_switch && from && from->state == 0) { std::vector<Task*> w; for (Task* t : v) if (t != from) w.push_back(t); return w.empty() ? v[0] : w[srng.below(w.size())]; }
  switch (C->mode) {
    case 1: case 2: case 4: case 6: { Task* b = v[0]; for (Task* t : v) if (t->prio > b->prio) b = t; return b; }
    case 3: { for (Task* t : v) if (from && t->idx > from->idx) return t; return v[0]; }
    default: { return v[srng.below(v.size())]; }
  }
}
static void switch_out() {   // give control to the scheduler loop
  Task* t = cur; cur = nullptr; int s = insim; insim = 0;
  t->err = errno;
  rt_swap(&t->sp, sched_sp);
  cur = t; insim = s; errno = t->err;
}
static void sched_point(bool) { cur->lastsw = cur->steps; switch_out(); }
static __attribute__((noinline)) void slow(Task*) { sched_point(false); }
// race-directed scheduling: hold the task right before an access that conflicts with another task's, and let another run
static __attribute__((noinline)) void race_directed() {
  race_seen = 0; Task* t = cur; R->st.race_hits++;
  if (C->mode == 5 || t->lastsw == t->steps || R->st.race_hits > 3000 || srng.below(100) >= (uint64_t)C->racedir) return;
  int s = insim; insim = 0; rd_switch = 1; sched_point(false); rd_switch = 0; insim = s;
}
static inline void tick() { Task* t = cur; if (__builtin_expect(++t->steps >= t->next, 0)) slow(t); }

extern "C" { static void run_keys(Task* t); }
static void task_main() {
  Task* t = last_run; cur = t; errno = 0;
  if (t->start) { insim = 1; t->ret = t->start(t->arg); insim = 0; run_keys(t); } else t->fn();
  cur = t; t->steps++;
  t->state = 2;
  if (t->detached) { t->joined = true; unjoined--; race_on = unjoined > 1 && (C->racefatal || C->racedir); }
  t->vc[t->idx]++;
  cur = nullptr; insim = 0;
  void* dummy; rt_swap(&dummy, sched_sp);
  __builtin_trap();
}
static Task* new_task(int client, bool thread) {
  if ((int)tasks.size() >= MAXT) rt_fail("harness", "too many tasks");
  Task* t = new Task; t->idx = tasks.size(); t->client = client; 
  t->uid = thread ? (uint32_t)(client * 100000 + (++fcount[client & 15][F_STALL])) : (uint32_t)client * 100000;
  U top = STACKS + (t->idx + 1) * STACK_SZ - 64;
  void** sp = (void**)top; *--sp = nullptr; *--sp = (void*)task_main;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); ((uint32_t*)sp)[0] = mx; ((uint32_t*)sp)[1] = cw;
  t->sp = sp;
  if (tls_size) { t->tls.assign(tls_size, 0); memcpy(&t->tls[0], tls_init, tls_filesz); }
  if (cur) { vc_join(t->vc, cur->vc); cur->vc[cur->idx]++; }
  t->vc[t->idx] = 1;
  if (C->mode == 1) t->prio = 1000000 + srng.below(1000000000);
  else if (C->mode == 2) t->prio = 1000000 + srng.below(1000000000);
  else if (C->mode == 4) t->prio = 1000000 + t->idx;
  else if (C->mode == 6) t->prio = 1100000 - t->idx;
  if (C->stall >= 0 && thread && ncreated == C->stall) t->stalled = true;
  if (thread) ncreated++;
  if (C->mode == 5) for (const Switch& s : C->list) if (s.task == t->uid) t->plan.push_back(s);
  tasks.push_back(t);
  unjoined++; race_on = unjoined > 1 && (C->racefatal || C->racedir);
  return t;
}
void rt_run(const SimCfg& cfg, std::function<void()> root) {
  C = &cfg; srng = Rng(cfg.schedseed); mrng = Rng(cfg.memseed); irng = Rng(cfg.ioseed);
  jpstream_sim_footprint = cfg.footprint;
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = 1 << 16; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; 
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, 0);
  if (cfg.mode == 1) { uint64_t span = 1000; for (int i = srng.below(4); i > 0; i--) span *= 10; for (int i = 0; i < cfg.mean; i++) changepts.push_back(srng.below(span)); std::sort(changepts.rbegin(), changepts.rend()); }
  struct itimerval tv{}; tv.it_value.tv_sec = 40; setitimer(ITIMER_VIRTUAL, &tv, 0);
  Task* r = new_task(0, false); r->fn = root;
  Task* from = nullptr; uint64_t ilv = 1469598103934665603ull;
  Task* t = r;
  char* ta = tls_area();
  while (true) {
    // run t
    if (t != last_run) {
      if (last_run && tls_size) memcpy(&last_run->tls[0], ta, tls_size);
      if (tls_size) memcpy(ta, &t->tls[0], tls_size);
      void** g = (void**)abi::__cxa_get_globals(); if (last_run) { last_run->eh[0] = g[0]; last_run->eh[1] = g[1]; } g[0] = t->eh[0]; g[1] = t->eh[1];
    }
    last_run = t; plan_next(t);
    uint64_t s0 = t->steps;
    rt_swap(&sched_sp, t->sp);
    base_steps += t->steps - s0;
    if (base_steps > cfg.maxsteps) rt_fail("hang", fmt("the run did not end within %llu steps", (unsigned long long)cfg.maxsteps));
    if (r->state == 2) break;
    from = t; if (t->slicecap && t->steps >= t->slicecap) t->fair = 1;
    if (t->state == 2) for (Task* k : tasks) if (k->state == 1 && k->waitobj == t) k->state = 0;
    if (cfg.mode == 1) while (!changepts.empty() && changepts.back() < base_steps) { changepts.pop_back(); if (from->state == 0) from->prio = --lowprio; }
    Task* n = choose(from, from->state != 0);
    if (!n) { std::string w; for (Task* k : tasks) if (k->state == 1) w += fmt(" task %u waits for %s;", k->uid, k->waiting); rt_fail("deadlock", "no task can run:" + w); }
    if (n != from) {
      R->st.switches++;
      if (R->nswitch < RunResult::MAXSW) { R->sw[R->nswitch++] = Switch{from->uid, n->uid, from->steps}; } else R->overflow = 1;
      for (uint64_t v : {(uint64_t)from->uid, from->steps, (uint64_t)n->uid}) { ilv ^= v; ilv *= 1099511628211ull; }
      h64(from->uid); h64(from->steps); h64(n->uid);
    }
    t = n;
  }
  R->st.ilv_hash = ilv;
  cur = nullptr; insim = 0;
  finish(1);
}
int rt_spawn_client(int client, std::function<void()> fn) { int si = insim; insim = 0; Task* t = new_task(client, false); t->fn = fn; insim = si; cur->steps++; sched_point(false); return t->idx; }
static void block_until(const char* what, const void* obj, std::function<bool()> ready) {
  cur->steps++;
  if (cur->steps >= cur->next) sched_point(false);
  while (!ready()) { cur->steps++; cur->state = 1; cur->waiting = what; cur->waitobj = obj; Task* me = cur; sched_point(true); me->state = 0; }
}
static void wake(const void* obj) { for (Task* t : tasks) if (t->state == 1 && t->waitobj == obj) t->state = 0; }
void rt_join(int i) {
  Task* t = tasks[i];
  Task* me = cur;
  while (t->state != 2) { me->steps++; me->state = 1; me->waiting = "the end of a thread"; me->waitobj = t; sched_point(true); me->state = 0; }
  me->steps++;
  vc_join(me->vc, t->vc);
  if (!t->joined) { t->joined = true; unjoined--; race_on = unjoined > 1 && (C->racefatal || C->racedir); }
}
void rt_yield() { if (cur) { tick(); } }
uint64_t rt_steps() { uint64_t t = 0; for (Task* k : tasks) t += k->steps; return t; }
int rt_tasks_alive() { int n = 0; for (Task* t : tasks) if (t->state != 2) n++; return n; }
void rt_enter() { insim = 1; }
void rt_leave() { insim = 0; }
void rt_paint_stack() {
  static volatile char sink; 
  size_t n = C->paint == 0 ? 0 : C->paint == 1 ? (256 << 10) : (5 << 20); if (!n) return;
  char* here = (char*)__builtin_frame_address(0); uint8_t v = C->fill == 0 ? 0 : C->fill == 4 ? 0xff : C->fill == 2 ? 1 : 0xCB;
  U lo = std::max<U>(STACKS + cur->idx * STACK_SZ + 8192, cur->stacklo); U a = (U)here - 2048; if (a - lo < n) n = a - lo;
  memset((void*)(a - n), v, n); (void)sink;
}

// ---------------------------------------------------------------- arena
struct Hdr { uint64_t magic; uint64_t size; uint64_t cap; uint32_t state; int16_t client; uint8_t kind; uint8_t pad; uint64_t seq; uint64_t pc; };
static_assert(sizeof(Hdr) == 48, "");
static const uint64_t MAGIC = 0x51AB1E0FDEC0DEDull;
static const size_t RZ = 64;   // header inside the left redzone
static U bump = ARENA + 4096; static uint64_t live_bytes, live_blocks, peak_bytes, nalloc; static uint64_t client_live[16];
static std::map<size_t, std::vector<U>> freelist; static std::vector<U> bigq;
static inline uint8_t* valid(U a) { return (uint8_t*)(VALID + (a - ARENA)); }
uint64_t rt_live_bytes() { return live_bytes; } uint64_t rt_live_blocks() { return live_blocks; } uint64_t rt_peak_bytes() { return peak_bytes; } void rt_reset_peak() { peak_bytes = live_bytes; }
uint64_t rt_client_live(int c) { return client_live[c & 15]; }
static size_t roundcap(size_t n) { size_t c = 16; while (c < n) c = c < 4096 ? c + 16 : c + c / 8 / 16 * 16; return c; }
static void fillmem(U a, size_t n) {
  switch (C->fill) {
    case 0: memset((void*)a, 0, n); break;
    case 1: memset((void*)a, 0xCB, n); break;
    case 4: memset((void*)a, 0xFF, n); break;
    case 2: { uint32_t x = (uint32_t)mrng.next() | 1; size_t m = n < 8192 ? n : 8192; uint32_t* p = (uint32_t*)a; for (size_t i = 0; i < m / 4; i++) { x = x * 1664525u + 1013904223u; p[i] = (x >> 16) & 3; } for (size_t i = m / 4 * 4; i < m; i++) ((char*)a)[i] = 1; if (n > m) memset((void*)(a + m), 1, n - m); break; }
    case 3: { uint64_t x = mrng.next() | 1; size_t m = n < 8192 ? n : 8192; for (size_t i = 0; i < m; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((uint8_t*)a)[i] = (uint8_t)x; } if (n > m) memset((void*)(a + m), (int)(x & 0x7f) | 1, n - m); break; }
    default: break;
  }
}
static void* arena_alloc(size_t n, int kind, U pc) {
  size_t cap = roundcap(n ? n : 1); U a = 0;
  if (n > (2ull << 30)) return nullptr;
  if (C->layout && cap < 100000) { auto it = freelist.find(cap); if (it != freelist.end() && !it->second.empty()) { size_t i = C->layout == 1 ? it->second.size() - 1 : mrng.below(it->second.size()); a = it->second[i]; it->second[i] = it->second.back(); it->second.pop_back(); } }
  if (!a && cap >= 100000) { for (size_t i = 0; i < bigq.size(); i++) { Hdr* h = (Hdr*)(bigq[i] - sizeof(Hdr)); if (h->cap == cap && bigq.size() - i > (C->layout == 1 ? 0 : C->layout == 2 ? 4 : 24)) { a = bigq[i]; bigq.erase(bigq.begin() + i); break; } } }
  if (!a) {
    size_t g = C->gap ? mrng.below(C->gap + 1) * 16 : 0;
    a = bump + RZ + g; bump = a + cap + 32; if (bump > ARENA + ARENA_SZ) { insim = 0; cur = nullptr; rt_fail("memory", "the simulated memory is exhausted"); }
  }
  Hdr* h = (Hdr*)(a - sizeof(Hdr)); h->magic = MAGIC; h->size = n; h->cap = cap; h->state = 1; h->kind = kind; h->client = cur ? cur->client : 0; h->seq = ++nalloc; h->pc = pc;
  memset(valid(a), 1, n);
  if (unjoined > 1) race_clear(a, cap);
  fillmem(a, n);
  live_bytes += n; live_blocks++; if (live_bytes > peak_bytes) peak_bytes = live_bytes; client_live[h->client & 15]++;
  R->st.mallocs++; if (live_bytes > R->st.maxlive) R->st.maxlive = live_bytes;
  return (void*)a;
}
static bool in_arena(const void* p) { return (U)p - ARENA < ARENA_SZ; }
static Hdr* hdr(const void* p) { if (!in_arena(p) || ((U)p & 15) || (U)p < ARENA + 4096) return nullptr; Hdr* h = (Hdr*)((U)p - sizeof(Hdr)); return h->magic == MAGIC ? h : nullptr; }
size_t rt_block_size(const void* p) { Hdr* h = hdr(p); return h && h->state == 1 ? h->size : (size_t)-1; }
static void arena_free(void* p, int kind, U pc) {
  Hdr* h = hdr(p);
  R->pc[0] = pc;
  if (!h) { insim = 0; rt_fail("memory", "release of an address that was never allocated"); }
  if (h->state != 1) { R->pc[1] = h->pc; insim = 0; rt_fail("memory", "double release of a block"); }
  if (C->memfatal && (h->kind == 0) != (kind == 0)) { R->pc[1] = h->pc; insim = 0; rt_fail("memory", "block released by the wrong kind of release"); }
  if (race_on && cur) { callerpc[0] = pc; race_range((U)p, h->size, 1); race_seen = 0; }
  R->pc[0] = 0;
  h->state = 2; h->pc = pc; memset(valid((U)p), 0, h->size);
  live_bytes -= h->size; live_blocks--; client_live[h->client & 15]--;
  if (C->fill != 5) memset(p, 0xDD, h->size);
  if (h->cap >= 100000) bigq.push_back((U)p); else if (C->layout) freelist[h->cap].push_back((U)p);
}
std::string rt_describe_live(int max) {
  std::string s; int k = 0;
  for (U a = ARENA + 4096; a < bump && k < max; a += 16) { Hdr* h = (Hdr*)a; if (h->magic == MAGIC && h->state == 1) { s += fmt(" %llu bytes (allocation %llu);", (unsigned long long)h->size, (unsigned long long)h->seq); if (k < 6) R->pc[k] = h->pc; k++; } }
  return s;
}
bool rt_valid_range(const void* p, size_t n) { U a = (U)p; if (a - ARENA >= ARENA_SZ) return true; for (size_t i = 0; i < n; i++) if (!*valid(a + i)) return false; return true; }

// ---------------------------------------------------------------- checked accesses
static __attribute__((noinline)) void bad_access(U a, size_t n, int w, U pc) {
  if (!C->memfatal) return;
  insim = 0; R->pc[0] = pc;
  U q = a; while (q < a + n && *valid(q)) q++;
  // find the nearest block for the report
  std::string what = "outside of any block";
  for (U b = q & ~15ull; b > ARENA + 4096 && q - b < 4096; b -= 16) { Hdr* h = (Hdr*)(b - sizeof(Hdr)); if (h->magic == MAGIC) { if (q < b + h->cap + 32) { what = h->state == 1 ? fmt("%llu bytes after the start of a block of %llu bytes", (unsigned long long)(q - b), (unsigned long long)h->size) : fmt("in a released block of %llu bytes", (unsigned long long)h->size); } break; } }
  rt_fail("memory", fmt("invalid %s of %llu bytes, %s", w ? "write" : "read", (unsigned long long)n, what.c_str()));
}
static inline void acc(U a, int n, int w, U pc) {
  if (__builtin_expect(!cur || !insim, 0)) return;
  tick();
  if (a - ARENA < ARENA_SZ) {
    uint8_t* v = valid(a); bool ok;
    switch (n) { case 1: ok = *v == 1; break; case 2: { uint16_t x; memcpy(&x, v, 2); ok = x == 0x0101; break; } case 4: { uint32_t x; memcpy(&x, v, 4); ok = x == 0x01010101u; break; } case 8: { uint64_t x; memcpy(&x, v, 8); ok = x == 0x0101010101010101ull; break; } default: ok = true; for (int i = 0; i < n; i++) ok &= v[i] == 1; }
    if (__builtin_expect(!ok, 0)) bad_access(a, n, w, pc);
  }
  if (race_on) { callerpc[0] = pc; race_range(a, n, w); if (race_seen) race_directed(); }
}
static void range(const void* p, size_t n, int w, U pc) {
  if (!cur || !insim || !n) return;
  tick(); R->st.mem_checks++;
  U a = (U)p;
  if (a - ARENA < ARENA_SZ) { uint8_t* v = valid(a); if (a - ARENA + n > ARENA_SZ || memchr(v, 0, n)) bad_access(a, n, w, pc); }
  if (race_on) { callerpc[0] = pc; race_range(a, n, w); if (race_seen) race_directed(); }
}
// length of a string, never running over the end of its block
static size_t slen(const char* s, size_t max, U pc) {
  size_t i = 0; U a = (U)s;
  if (cur && insim && a - ARENA < ARENA_SZ) { for (; i < max; i++) { if (*valid(a + i) != 1 && C->memfatal) bad_access(a + i, 1, 0, pc); if (!s[i]) break; } } else i = strnlen(s, max);
  return i;
}
#define PC ((U)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
#define RWN(n) void __tsan_read##n(void* p) { acc((U)p, n, 0, PC); } void __tsan_write##n(void* p) { acc((U)p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* p) { acc((U)p, n, 0, PC); } void __tsan_unaligned_write##n(void* p) { acc((U)p, n, 1, PC); } \
  void __tsan_read_write##n(void* p) { acc((U)p, n, 1, PC); } void __tsan_unaligned_read_write##n(void* p) { acc((U)p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { acc((U)p, n, 0, PC); } void __tsan_volatile_write##n(void* p) { acc((U)p, n, 1, PC); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_read_range(void* p, size_t n) { range(p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { range(p, n, 1, PC); }
void __tsan_vptr_read(void* p) { acc((U)p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { acc((U)p, 8, 1, PC); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(d, n, 1, PC); return memset(d, c, n); }
// atomics: sequentially consistent, a synchronisation on the address
#define SYNC_PRE(a, n) if (cur && insim) { tick(); if ((U)(a) - ARENA < ARENA_SZ && memchr(valid((U)(a)), 0, n)) bad_access((U)(a), n, 1, PC); insim = 0; acquire((void*)(a)); release((void*)(a)); insim = 1; }
#define ATOM(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { SYNC_PRE(a, sizeof(T)) return *a; } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { SYNC_PRE(a, sizeof(T)) T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { SYNC_PRE(a, sizeof(T)) if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { SYNC_PRE(a, sizeof(T)) if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { SYNC_PRE(a, sizeof(T)) T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions (JPStream's calls are redirected here)
static bool healed; extern "C++" { void rt_heal() { healed = true; } }
// the place a call was made from: the innermost return addresses inside the library
static uint32_t call_site() {
  U* fp = (U*)__builtin_frame_address(0); U lo = STACKS + cur->idx * STACK_SZ, hi = lo + STACK_SZ; uint32_t h = 2166136261u;
  for (int i = 0; i < 7 && (U)fp > lo && (U)fp < hi - 16 && !((U)fp & 7); i++) { h = (h ^ (uint32_t)fp[1]) * 16777619u; U* up = (U*)fp[0]; if (up <= fp) break; fp = up; }
  return h;
}
static __attribute__((noinline)) bool inject(int kind) {
  if (!cur || healed) return false;
  int c = cur->client & 15; long n = ++fcount[c][kind]; bool hit = false;
  if (R->nlog < RunResult::MAXLOG) R->log[R->nlog++] = {(uint8_t)c, (uint8_t)kind, (uint32_t)n, call_site()};
  for (const Fault& f : C->faults) if (f.kind == kind && f.client == c && n >= f.nth && n < f.nth + f.count) hit = true;
  if (hit) { R->st.fired[kind]++; h64(kind * 1000 + n); }
  return hit;
}
void __sanitizer_cov_8bit_counters_init(char*, char*) {} void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
static void* alloc_or_fail(size_t n, int kind, U pc) {
  if (!cur || !insim) return kind == 0 ? malloc(n) : nullptr;
  tick(); insim = 0; void* p = inject(F_MALLOC) ? nullptr : arena_alloc(n, kind, pc); insim = 1; return p;
}
void* sim_malloc(size_t n) { return alloc_or_fail(n, 0, PC); }
void* sim_calloc(size_t a, size_t b) { void* p = alloc_or_fail(a * b, 0, PC); if (p) memset(p, 0, a * b); return p; }
void sim_free(void* p) { if (!p) return; if (!in_arena(p)) { free(p); return; } U pc = PC; int s = insim; if (cur) { if (insim) tick(); } insim = 0; arena_free(p, 0, pc); insim = s; }
void* sim_realloc(void* p, size_t n) {
  if (!p) return alloc_or_fail(n, 0, PC);
  if (!in_arena(p)) return realloc(p, n);
  Hdr* h = hdr(p); U pc = PC; if (!h || h->state != 1) { insim = 0; R->pc[0] = pc; rt_fail("memory", "resizing a block that is not allocated"); }
  size_t o = h->size; void* q = alloc_or_fail(n, 0, PC); if (!q) return nullptr;
  if (race_on) { callerpc[0] = pc; race_range((U)p, o, 0); }
  memcpy(q, p, o < n ? o : n); int s = insim; insim = 0; arena_free(p, 0, pc); insim = s; return q;
}
int sim_posix_memalign(void** r, size_t al, size_t n) { void* p = alloc_or_fail(n, 0, PC); if (!p) return ENOMEM; *r = p; return 0; }
void* sim_memalign(size_t, size_t n) { return alloc_or_fail(n, 0, PC); }
void* sim_aligned_alloc(size_t, size_t n) { return alloc_or_fail(n, 0, PC); }
size_t sim_malloc_usable_size(void* p) { Hdr* h = hdr(p); return h ? h->size : 0; }
char* sim_strdup(const char* s) { size_t n = slen(s, ~0ull, PC); range(s, n + 1, 0, PC); char* p = (char*)alloc_or_fail(n + 1, 0, PC); if (p) memcpy(p, s, n + 1); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = slen(s, m, PC); range(s, n, 0, PC); char* p = (char*)alloc_or_fail(n + 1, 0, PC); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void* sim_memcpy(void* d, const void* s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); if (n && cur && insim && C->memfatal && (U)d < (U)s + n && (U)s < (U)d + n && d != s) { insim = 0; R->pc[0] = PC; rt_fail("memory", "overlapping memcpy"); } return memmove(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { range(d, n, 1, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { range(a, n, 0, PC); range(b, n, 0, PC); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { const char* r = (const char*)memchr(a, c, n); range(a, r ? r - (const char*)a + 1 : n, 0, PC); return (void*)r; }
size_t sim_strlen(const char* s) { size_t n = slen(s, ~0ull, PC); range(s, n + 1, 0, PC); return n; }
size_t sim_strnlen(const char* s, size_t m) { size_t n = slen(s, m, PC); range(s, n < m ? n + 1 : n, 0, PC); return n; }
static size_t cmpspan(const char* a, const char* b, size_t max, U pc) { size_t i = 0; for (; i < max; i++) { if (cur && insim) { if ((U)a + i - ARENA < ARENA_SZ && *valid((U)a + i) != 1) bad_access((U)a + i, 1, 0, pc); if ((U)b + i - ARENA < ARENA_SZ && *valid((U)b + i) != 1) bad_access((U)b + i, 1, 0, pc); } if (a[i] != b[i] || !a[i]) return i + 1; } return i; }
int sim_strcmp(const char* a, const char* b) { size_t n = cmpspan(a, b, ~0ull, PC); range(a, n, 0, PC); range(b, n, 0, PC); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t m) { size_t n = cmpspan(a, b, m, PC); range(a, n, 0, PC); range(b, n, 0, PC); return strncmp(a, b, m); }
int sim_strcasecmp(const char* a, const char* b) { range(a, slen(a, ~0ull, PC) + 1, 0, PC); range(b, slen(b, ~0ull, PC) + 1, 0, PC); return strcasecmp(a, b); }
char* sim_strcpy(char* d, const char* s) { size_t n = slen(s, ~0ull, PC) + 1; range(s, n, 0, PC); range(d, n, 1, PC); return (char*)memmove(d, s, n); }
char* sim_stpcpy(char* d, const char* s) { size_t n = slen(s, ~0ull, PC) + 1; range(s, n, 0, PC); range(d, n, 1, PC); memmove(d, s, n); return d + n - 1; }
char* sim_strncpy(char* d, const char* s, size_t m) { size_t n = slen(s, m, PC); range(s, n < m ? n + 1 : n, 0, PC); range(d, m, 1, PC); return strncpy(d, s, m); }
char* sim_strcat(char* d, const char* s) { size_t k = slen(d, ~0ull, PC), n = slen(s, ~0ull, PC) + 1; range(d, k + 1, 0, PC); range(s, n, 0, PC); range(d + k, n, 1, PC); memmove(d + k, s, n); return d; }
char* sim_strncat(char* d, const char* s, size_t m) { size_t k = slen(d, ~0ull, PC), n = slen(s, m, PC); range(d, k + 1, 0, PC); range(s, n, 0, PC); range(d + k, n + 1, 1, PC); memmove(d + k, s, n); d[k + n] = 0; return d; }
char* sim_strchr(const char* s, int c) { size_t n = slen(s, ~0ull, PC); range(s, n + 1, 0, PC); return (char*)strchr(s, c); }
char* sim_strrchr(const char* s, int c) { size_t n = slen(s, ~0ull, PC); range(s, n + 1, 0, PC); return (char*)strrchr(s, c); }
char* sim_strstr(const char* a, const char* b) { range(a, slen(a, ~0ull, PC) + 1, 0, PC); range(b, slen(b, ~0ull, PC) + 1, 0, PC); return (char*)strstr(a, b); }
// the locale of the process may write numbers with a comma
static thread_local std::string numcopy; static bool comma() { return C->comma && insim && (!cur || !cur->cloc); }
static const char* localised(const char* s) { if (!comma()) return s; int k = insim; insim = 0; numcopy = s; for (auto& c : numcopy) c = c == '.' ? '\1' : c == ',' ? '.' : c; insim = k; return numcopy.c_str(); }
static double tonum(const char* s, char** e, double (*f)(const char*, char**)) { const char* t = localised(s); char* q; double v = f(t, &q); if (e) *e = (char*)s + (q - t); return v; }
double sim_strtod(const char* s, char** e) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return tonum(s, e, strtod); }
double sim_atof(const char* s) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return tonum(s, nullptr, strtod); }
double sim_strtod_l(const char* s, char** e, locale_t l) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return l == (locale_t)2 ? tonum(s, e, strtod) : strtod(s, e); }
locale_t sim_newlocale(int, const char* n, locale_t) { return (locale_t)(*n ? 1 : 2); }
locale_t sim_duplocale(locale_t l) { return l; }
void sim_freelocale(locale_t) {}
locale_t sim_uselocale(locale_t l) { locale_t o = cur && cur->cloc ? (locale_t)1 : LC_GLOBAL_LOCALE; if (cur && l) cur->cloc = l == (locale_t)1; return o; }
struct lconv* sim_localeconv() { static char cm[] = ","; static struct lconv L; L = *localeconv(); if (comma()) L.decimal_point = cm; return &L; }
char* sim_setlocale(int, const char* n) { static char a[] = "C", b[] = "de_DE.UTF-8"; return n && *n ? nullptr : C->comma ? b : a; }
static int scan(const char* s, const char* f, va_list v) { int n = strlen(f); for (int i = 0; i + 1 < n; i++) if (f[i] == '%') { const char* p = f + i + 1; while (*p && strchr("*0123456789l", *p)) p++; if (*p && strchr("fgeFGE", *p)) { return vsscanf(localised(s), f, v); } } return vsscanf(s, f, v); }
#define SCAN(name) int name(const char* s, const char* f, ...) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); va_list v; va_start(v, f); int k = scan(s, f, v); va_end(v); return k; }
SCAN(sim_sscanf) SCAN(sim___isoc99_sscanf) SCAN(sim___isoc23_sscanf)
int sim_atoi(const char* s) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return atoi(s); }
long sim_atol(const char* s) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return atol(s); }
long sim_strtol(const char* s, char** e, int b) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return strtol(s, e, b); }
long sim___isoc23_strtol(const char* s, char** e, int b) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return strtol(s, e, b); }
unsigned long sim_strtoul(const char* s, char** e, int b) { range(s, slen(s, ~0ull, PC) + 1, 0, PC); return strtoul(s, e, b); }
#define STR(s) range(s, slen(s, ~0ull, PC) + 1, 0, PC)
long long sim_strtoll(const char* s, char** e, int b) { STR(s); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char* s, char** e, int b) { STR(s); return strtoull(s, e, b); }
long long sim_atoll(const char* s) { STR(s); return atoll(s); }
float sim_strtof(const char* s, char** e) { STR(s); return (float)tonum(s, e, [](const char* a, char** b) { return (double)strtof(a, b); }); }
int sim_strncasecmp(const char* a, const char* b, size_t m) { range(a, slen(a, m, PC), 0, PC); range(b, slen(b, m, PC), 0, PC); return strncasecmp(a, b, m); }
size_t sim_strspn(const char* s, const char* t) { STR(s); STR(t); return strspn(s, t); }
size_t sim_strcspn(const char* s, const char* t) { STR(s); STR(t); return strcspn(s, t); }
char* sim_strpbrk(const char* s, const char* t) { STR(s); STR(t); return (char*)strpbrk(s, t); }
char* sim_strchrnul(const char* s, int c) { STR(s); return (char*)strchrnul(s, c); }
void* sim_memrchr(const void* p, int c, size_t n) { range(p, n, 0, PC); return (void*)memrchr(p, c, n); }
void* sim_memmem(const void* p, size_t n, const void* q, size_t m) { range(p, n, 0, PC); range(q, m, 0, PC); return memmem(p, n, q, m); }
void* sim_mempcpy(void* d, const void* s, size_t n) { range(s, n, 0, PC); range(d, n, 1, PC); memmove(d, s, n); return (char*)d + n; }
static char* tok(char* s, const char* t, char** save) { if (!s) s = *save; if (!s) return nullptr; s += strspn(s, t); if (!*s) { *save = s; return nullptr; } char* e = s + strcspn(s, t); if (*e) { range(e, 1, 1, (U)0); *e++ = 0; } *save = e; return s; }
static char* toksave;   // the hidden state of strtok is shared by all threads
char* sim_strtok(char* s, const char* t) { range(&toksave, sizeof toksave, 1, PC); if (s) STR(s); STR(t); return tok(s, t, &toksave); }
char* sim_strtok_r(char* s, const char* t, char** save) { range(save, sizeof *save, 1, PC); if (s) STR(s); STR(t); return tok(s, t, save); }
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
int sim_vasprintf(char** d, const char* f, va_list a) { char* t = 0; int r = vasprintf(&t, f, a); char* p = (char*)alloc_or_fail(r + 1, 0, PC); if (!p) { free(t); return -1; } memcpy(p, t, r + 1); free(t); *d = p; return r; }
int sim_asprintf(char** d, const char* f, ...) { va_list a; va_start(a, f); int r = sim_vasprintf(d, f, a); va_end(a); return r; }
// variables of a thread: one copy per task (compiled with -femulated-tls)
struct EmuTls { size_t size, align; void* loc; const void* init; };
static std::map<std::pair<int, EmuTls*>, void*> tlsvars;
void* sim___emutls_get_address(EmuTls* v) { int s = insim; insim = 0; void*& p = tlsvars[{cur ? cur->idx : -1, v}]; if (!p) { p = malloc(v->size); if (v->init) memcpy(p, v->init, v->size); else memset(p, 0, v->size); } insim = s; return p; }

// ---------------------------------------------------------------- output of the process: swallowed, format strings serve as reach probes
static void probe(const char* f) {
  if (!cur) return; tick();
  if (strncmp(f, "start reprocessing", 18) == 0) R->st.probe_reprocess++;
}
int sim_printf(const char* f, ...) { probe(f); return 0; }
int sim_vprintf(const char* f, va_list) { probe(f); return 0; }
int sim_fprintf(FILE*, const char* f, ...) { probe(f); return 0; }
int sim_vfprintf(FILE*, const char* f, va_list) { probe(f); return 0; }
int sim_puts(const char* f) { probe(f); return 0; }
int sim_putchar(int c) { if (cur) tick(); return c; }
int sim_fputs(const char* f, FILE*) { probe(f); return 0; }
int sim_fputc(int c, FILE*) { if (cur) tick(); return c; }
int sim_putc(int c, FILE*) { if (cur) tick(); return c; }
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE*) { range(p, s * n, 0, PC); return n; }
void sim_perror(const char*) { if (cur) tick(); }
int sim_fflush(FILE*) { if (cur) tick(); return 0; }
// a format with one number only
static void localise(char* t, const char* f) { if (!comma()) return; const char* p = strchr(f, '%'); if (!p || strchr(p + 1, '%') || !strpbrk(p, "fgeFGE")) return; for (; *t; t++) if (*t == '.') *t = ','; }
int sim_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); char* tmp = (char*)malloc(n + 1); int r = vsnprintf(tmp, n, f, a); va_end(a); if (n) localise(tmp, f); size_t w = n == 0 ? 0 : (size_t)r + 1 < n ? r + 1 : n; range(d, w, 1, PC); memcpy(d, tmp, w); free(tmp); return r; }
int sim_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); char* tmp = 0; int r = vasprintf(&tmp, f, a); va_end(a); localise(tmp, f); range(d, r + 1, 1, PC); memcpy(d, tmp, r + 1); free(tmp); return r; }
void sim_exit(int c) { insim = 0; if (R->st.fired[F_MALLOC]) allowed_failstop("exit"); rt_fail("exit", fmt("the library ended the process with code %d", c)); }
void sim__exit(int c) { sim_exit(c); }
void sim_abort() { insim = 0; allowed_failstop("abort"); rt_fail("exit", "the library aborted the process"); }
void sim___assert_fail(const char* e, const char*, unsigned, const char*) { insim = 0; allowed_failstop("assertion"); rt_fail("exit", std::string("assertion failed: ") + e); }

// ---------------------------------------------------------------- clock
static int64_t now_ns() {
  if (cur) tick();
  if (inject(F_CLOCK)) { int64_t j = ((int64_t)(irng.next() % 7200000000000ull)) - 3600000000000ll; clock_off += j; clock_jump_ns += j < 0 ? -j : j; }
  return 1700000000000000000ll + (int64_t)(base_steps + (cur ? cur->steps : 0)) * 10 + clock_off;
}
int sim_gettimeofday(struct timeval* tv, void*) { int64_t n = now_ns(); range(tv, sizeof *tv, 1, PC); tv->tv_sec = n / 1000000000; tv->tv_usec = n / 1000 % 1000000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec* ts) { int64_t n = now_ns(); range(ts, sizeof *ts, 1, PC); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
time_t sim_time(time_t* t) { int64_t n = now_ns() / 1000000000; if (t) *t = n; return n; }
clock_t sim_clock() { return now_ns() / 1000; }
long sim_random() { return (long)(irng.next() & 0x7fffffff); } void sim_srandom(unsigned) {} long sim_lrand48() { return sim_random(); } double sim_drand48() { return sim_random() / 2147483648.0; } int sim_rand_r(unsigned*) { return (int)sim_random(); }
int sim_rand() { return (int)(irng.next() & 0x7fffffff); }
void sim_srand(unsigned) {}

// ---------------------------------------------------------------- files
struct SimFile { std::string* data; size_t pos; int client; bool dead; U buf = 0; size_t bufn = 0; };
static std::map<std::string, std::string*> fs; static std::map<FILE*, SimFile*> openf;
static ssize_t ck_read(void* k, char* buf, size_t n) {
  SimFile* f = (SimFile*)k; int s = insim; insim = 0;
  if (cur) { cur->steps++; if (cur->steps >= cur->next) { sched_point(false); } }
  R->st.reads++;
  bool once = inject(F_READ); bool pers = false; 
  if (!healed) { int c = cur ? cur->client & 15 : 0; long m = ++fcount[c][F_READP]; for (const Fault& x : C->faults) if (x.kind == F_READP && x.client == c && m >= x.nth) pers = true; if (pers) R->st.fired[F_READP]++; }
  if (once || pers || f->dead) { insim = s; errno = EIO; return -1; }
  size_t left = f->data->size() > f->pos ? f->data->size() - f->pos : 0; size_t m = n < left ? n : left;
  if (C->shortread && m > 1) { size_t lim = 1 + irng.below(C->shortread); if (m > lim) { m = lim; R->st.fired[F_SHORT]++; } }
  memcpy(buf, f->data->data() + f->pos, m); f->pos += m; R->st.bytes_read += m; insim = s; return m;
}
static int ck_seek(void* k, off64_t* off, int wh) {
  SimFile* f = (SimFile*)k; int s = insim; insim = 0; bool bad = inject(F_SEEK); insim = s;
  if (bad) { errno = EIO; return -1; }
  int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (int64_t)f->pos + *off : (int64_t)f->data->size() + *off;
  if (p < 0) { errno = EINVAL; return -1; } f->pos = p; *off = p; return 0;
}
static ssize_t ck_write(void*, const char*, size_t n) { return n; }
static int ck_close(void* k) { delete (SimFile*)k; return 0; }
FILE* sim_fopen(const char* name, const char* mode) {
  range(name, slen(name, ~0ull, PC) + 1, 0, PC);
  int s = insim; insim = 0; R->st.opens++;
  bool bad = inject(F_OPEN); auto it = fs.find(name); FILE* r = nullptr;
  if (bad || it == fs.end()) errno = bad ? EMFILE : ENOENT;
  else { SimFile* f = new SimFile{it->second, 0, cur ? cur->client : 0, false}; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; r = fopencookie(f, mode, io); if (C->stdiobuf) setvbuf(r, nullptr, _IOFBF, C->stdiobuf); openf[r] = f; }
  insim = s; return r;
}
FILE* sim_fopen64(const char* n, const char* m) { return sim_fopen(n, m); }
static void chk_file(FILE* f, U pc) {
  if (!cur || f == stdin || f == stdout || f == stderr) return; auto it = openf.find(f);
  if (it == openf.end()) { R->pc[0] = pc; insim = 0; rt_fail("memory", "use of a file that is not open"); }
  if (it->second->bufn) range((void*)it->second->buf, it->second->bufn < 4096 ? it->second->bufn : 4096, 1, pc);
}
int sim_fclose(FILE* f) { chk_file(f, PC); if (cur) tick(); int s = insim; insim = 0; openf.erase(f); int r = fclose(f); insim = s; return r; }
size_t sim_fread(void* p, size_t a, size_t n, FILE* f) { chk_file(f, PC); if (cur) tick(); size_t r = fread(p, a, n, f); range(p, a * r, 1, PC); return r; }
size_t sim_fread_unlocked(void* p, size_t a, size_t n, FILE* f) { chk_file(f, PC); if (cur) tick(); size_t r = fread(p, a, n, f); range(p, a * r, 1, PC); return r; }
int sim_fgetc_unlocked(FILE* f) { chk_file(f, PC); if (cur) tick(); return fgetc(f); }
int sim_getc_unlocked(FILE* f) { chk_file(f, PC); if (cur) tick(); return fgetc(f); }
int sim_feof_unlocked(FILE* f) { chk_file(f, PC); return feof(f); }
int sim_ferror_unlocked(FILE* f) { chk_file(f, PC); return ferror(f); }
void sim_flockfile(FILE*) {} void sim_funlockfile(FILE*) {}
int sim_fgetpos(FILE* f, fpos_t* p) { chk_file(f, PC); if (cur) tick(); range(p, sizeof *p, 1, PC); return fgetpos(f, p); }
int sim_fsetpos(FILE* f, const fpos_t* p) { chk_file(f, PC); if (cur) tick(); range(p, sizeof *p, 0, PC); return fsetpos(f, p); }
int sim_fgetc(FILE* f) { chk_file(f, PC); if (cur) tick(); return fgetc(f); }
int sim_getc(FILE* f) { chk_file(f, PC); if (cur) tick(); return fgetc(f); }
int sim_ungetc(int c, FILE* f) { chk_file(f, PC); return ungetc(c, f); }
char* sim_fgets(char* p, int n, FILE* f) { chk_file(f, PC); if (cur) tick(); char* r = fgets(p, n, f); if (r) range(p, strlen(p) + 1, 1, PC); return r; }
int sim_fseek(FILE* f, long o, int w) { chk_file(f, PC); if (cur) tick(); return fseek(f, o, w); }
long sim_ftell(FILE* f) { chk_file(f, PC); if (cur) tick(); return ftell(f); }
int sim_fseeko(FILE* f, off_t o, int w) { chk_file(f, PC); return fseeko(f, o, w); }
off_t sim_ftello(FILE* f) { chk_file(f, PC); return ftello(f); }
void sim_rewind(FILE* f) { chk_file(f, PC); rewind(f); }
int sim_feof(FILE* f) { chk_file(f, PC); return feof(f); }
int sim_ferror(FILE* f) { chk_file(f, PC); return ferror(f); }
void sim_clearerr(FILE* f) { chk_file(f, PC); clearerr(f); }
int sim_flock(int, int) { return 0; }
static std::string* fd_data(int fd);
static FILE* of_fd(int fd) { int k = 0; for (auto& x : openf) if (fd - 1000 == k++) return x.first; return nullptr; }
int sim_fileno(FILE* f) { chk_file(f, PC); int k = 0; for (auto& x : openf) { if (x.first == f) return 1000 + k; k++; } errno = EBADF; return -1; }
static std::map<std::string*, long> written;   // how often a file was written
static void stat_of(std::string* d, struct stat* b) { b->st_size = d->size(); b->st_nlink = 1; b->st_blksize = 4096; b->st_ino = 100; for (auto& x : fs) { if (x.second == d) break; b->st_ino++; } b->st_mtim.tv_sec = b->st_ctim.tv_sec = 1000000000; b->st_mtim.tv_nsec = b->st_ctim.tv_nsec = 1000 * written[d]; }
int sim_fstat(int fd, struct stat* b) { std::string* d = fd_data(fd); range(b, sizeof *b, 1, PC); if (!d || inject(F_SEEK)) { errno = d ? EIO : EBADF; return -1; } memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0644; stat_of(d, b); return 0; }
int sim_fstat64(int fd, struct stat* b) { return sim_fstat(fd, b); }
int sim_stat(const char* n, struct stat* b) { range(n, slen(n, ~0ull, PC) + 1, 0, PC); range(b, sizeof *b, 1, PC); auto it = fs.find(n); if (it == fs.end() || inject(F_SEEK)) { errno = it == fs.end() ? ENOENT : EIO; return -1; } memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0644; stat_of(it->second, b); return 0; }
// descriptors
struct SimFd { std::string* data; size_t pos; }; static std::map<int, SimFd> fds; static int nextfd = 100000;
int sim_open(const char* name, int flags, ...) { range(name, slen(name, ~0ull, PC) + 1, 0, PC); int s = insim; insim = 0; R->st.opens++; bool bad = inject(F_OPEN); auto it = fs.find(name); int r = -1; if (bad || it == fs.end()) errno = bad ? EMFILE : ENOENT; else { r = nextfd++; fds[r] = {it->second, 0}; } insim = s; return r; }
int sim_open64(const char* n, int f, ...) { return sim_open(n, f); }
static ssize_t fd_read(int fd, void* p, size_t n, off_t at, bool adv, U pc) {
  if (cur) tick(); int s = insim; insim = 0; ssize_t r = -1; auto it = fds.find(fd);
  if (it == fds.end()) errno = EBADF; else { SimFile t{it->second.data, at < 0 ? it->second.pos : (size_t)at, 0, false}; insim = s; r = ck_read(&t, (char*)p, n); insim = 0; if (r > 0 && adv) it->second.pos = t.pos; }
  insim = s; if (r > 0) range(p, r, 1, pc); return r; }
ssize_t sim_read(int fd, void* p, size_t n) { return fd_read(fd, p, n, -1, true, PC); }
ssize_t sim_pread(int fd, void* p, size_t n, off_t o) { return fd_read(fd, p, n, o, false, PC); }
ssize_t sim_pread64(int fd, void* p, size_t n, off_t o) { return fd_read(fd, p, n, o, false, PC); }
off_t sim_lseek(int fd, off_t o, int w) { auto it = fds.find(fd); if (it == fds.end() || inject(F_SEEK)) { errno = it == fds.end() ? EBADF : EIO; return -1; } off_t p = w == SEEK_SET ? o : w == SEEK_CUR ? (off_t)it->second.pos + o : (off_t)it->second.data->size() + o; if (p < 0) { errno = EINVAL; return -1; } return it->second.pos = p; }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int sim_close(int fd) { return fds.erase(fd) ? 0 : (errno = EBADF, -1); }
void* sim_mmap(void*, size_t n, int, int flags, int fd, off_t o) { U pc = PC; int s = insim; insim = 0; void* r = MAP_FAILED; auto it = fds.find(fd); bool anon = flags & MAP_ANONYMOUS; if ((anon || it != fds.end()) && n && !inject(anon ? F_MALLOC : F_READ)) { r = arena_alloc((n + 4095) / 4096 * 4096, 2, pc); if (r) { memset(r, 0, (n + 4095) / 4096 * 4096); if (!anon && (size_t)o < it->second.data->size()) memcpy(r, it->second.data->data() + o, std::min(n, it->second.data->size() - o)); } else r = MAP_FAILED; } if (r == MAP_FAILED) errno = ENOMEM; insim = s; return r; }
int sim_munmap(void* p, size_t) { int s = insim; insim = 0; arena_free(p, 2, PC); insim = s; return 0; }
static std::string* fd_data(int fd) { auto it = fds.find(fd); if (it != fds.end()) return it->second.data; FILE* f = of_fd(fd); return f ? openf[f]->data : nullptr; }
int sim_madvise(void*, size_t, int) { return 0; } int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
ssize_t sim_getdelim(char** b, size_t* cap, int d, FILE* f) { U pc = PC; chk_file(f, pc); if (cur) tick(); char* t = nullptr; size_t tc = 0; int s = insim; insim = 0; ssize_t r = getdelim(&t, &tc, d, f); insim = s; if (r >= 0) { if (!*b || *cap < (size_t)r + 1) { if (*b) sim_free(*b); *cap = r + 1; *b = (char*)alloc_or_fail(r + 1, 0, pc); if (!*b) { free(t); return -1; } } memcpy(*b, t, r + 1); range(*b, r + 1, 1, pc); } free(t); return r; }
ssize_t sim_getline(char** b, size_t* cap, FILE* f) { return sim_getdelim(b, cap, '\n', f); }
// a buffer given to a stream is used by every read through it
int sim_setvbuf(FILE* f, char* b, int mode, size_t n) {
  chk_file(f, PC); auto it = openf.find(f); if (it == openf.end()) return 0; if (b && n && mode != _IONBF) range(b, n, 1, PC);
  int s = insim; insim = 0; int r = mode == _IONBF ? 0 : setvbuf(f, b, mode, b ? n : 0); it->second->buf = (U)b; it->second->bufn = b && mode != _IONBF ? n : 0; insim = s; return r;
}
void sim_setbuf(FILE* f, char* b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); } void sim_setbuffer(FILE* f, char* b, size_t n) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, n); }
int sim_access(const char* n, int) { return fs.count(n) ? 0 : -1; }

// ---------------------------------------------------------------- threads
// a thread that asks for a smaller stack has only that
static void limit_stack(Task* t, const pthread_attr_t* a) {
  size_t n = 0; int d = 0; if (!a) return; if (!pthread_attr_getdetachstate(a, &d) && d == PTHREAD_CREATE_DETACHED) t->detached = true;
  if (pthread_attr_getstacksize(a, &n) || n >= STACK_SZ - 8192) return;
  U lo = STACKS + t->idx * STACK_SZ, top = (STACKS + (t->idx + 1) * STACK_SZ - n) & ~4095ull; mprotect((void*)lo, top - lo, PROT_NONE); t->stacklo = top;
}
extern "C" { int sim_pthread_yield(); int sim_pthread_mutex_lock(pthread_mutex_t*); int sim_pthread_mutex_trylock(pthread_mutex_t*); int sim_pthread_mutex_unlock(pthread_mutex_t*); int sim_sem_trywait(void*); }
static int patience() { return srng.below(3) ? srng.below(400) : 0; }
int sim_pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  tick(); int s = insim; insim = 0;
  if (inject(F_THREAD) || tasks.size() >= MAXT - 4) { memset(th, 0xA5, sizeof *th); insim = s; return (C->schedseed >> 7) % 4 ? EAGAIN : EPERM; }   // what *th is then is undefined
  Task* t = new_task(cur->client, true); t->start = fn; t->arg = arg; limit_stack(t, at);
  insim = s; range(th, sizeof *th, 1, PC); *th = (pthread_t)(t->idx + 1); R->st.probe_multi++;
  // the child may run at once
  insim = 0; cur->steps++; sched_point(false); insim = s; return 0;
}
int sim_pthread_join(pthread_t th, void** ret) {
  tick(); size_t i = (size_t)th - 1; U pc = PC;
  if (i >= tasks.size() || !tasks[i]->start || tasks[i]->joined || tasks[i]->detached || tasks[i] == cur) { R->pc[0] = pc; insim = 0; rt_fail("thread", "join of a thread that does not exist or was joined before"); }
  int s = insim; insim = 0; rt_join(i); insim = s; if (ret) *ret = tasks[i]->ret; return 0;
}
// a join that does not wait, or only for a time: how long that is in steps is a choice of the run
int sim_pthread_tryjoin_np(pthread_t th, void** ret) { tick(); size_t i = (size_t)th - 1; return i < tasks.size() && tasks[i]->start && tasks[i]->state != 2 ? EBUSY : sim_pthread_join(th, ret); }
int sim_pthread_timedjoin_np(pthread_t th, void** ret, const struct timespec*) { for (int k = patience(); k > 0; k--) { int r = sim_pthread_tryjoin_np(th, ret); if (r != EBUSY) return r; sim_pthread_yield(); } return ETIMEDOUT; }
int sim_pthread_clockjoin_np(pthread_t th, void** ret, clockid_t, const struct timespec* t) { return sim_pthread_timedjoin_np(th, ret, t); }
int sim_pthread_detach(pthread_t th) { size_t i = (size_t)th - 1; if (i < tasks.size()) { tasks[i]->detached = true; if (tasks[i]->state == 2 && !tasks[i]->joined) { tasks[i]->joined = true; unjoined--; } } return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(cur ? cur->idx + 1 : 0); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void* r) {
  Task* t = cur; t->ret = r; insim = 0; run_keys(t); t->steps++; t->state = 2; t->vc[t->idx]++; if (t->detached) { t->joined = true; unjoined--; race_on = unjoined > 1 && (C->racefatal || C->racedir); } cur = nullptr; insim = 0; void* d; rt_swap(&d, sched_sp); __builtin_trap();
}
int sim_pthread_yield() { if (!cur) return 0; tick(); cur->steps++; int s = insim; insim = 0; cur->fair = 1; sched_point(false); insim = s; return 0; }
int sim_sched_yield() { return sim_pthread_yield(); }
int sim_usleep(unsigned) { return sim_pthread_yield(); }
unsigned sim_sleep(unsigned) { return sim_pthread_yield(); }
int sim_nanosleep(const struct timespec*, struct timespec*) { return sim_pthread_yield(); }
int sim_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sim_pthread_yield(); }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
int sim_pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t* c) { memset(c, 0, n); for (int i = 0; i < 4; i++) CPU_SET(i, c); return 0; }
int sim_sched_getaffinity(pid_t, size_t n, cpu_set_t* c) { return sim_pthread_getaffinity_np(0, n, c); }
int sim_sched_getcpu() { return cur ? cur->idx % 4 : 0; }
int sim_pthread_setcancelstate(int, int* o) { if (o) *o = 0; return 0; }
int sim_pthread_setcanceltype(int, int* o) { if (o) *o = 0; return 0; }
// the machine of the simulation has its own number of processors
static int ncpu() { static const int N[] = {4, 1, 2, 8, 16}; return N[C->memseed % 5]; }
long sim_sysconf(int k) { return k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF ? ncpu() : sysconf(k); }
int sim_get_nprocs() { return ncpu(); } int sim_get_nprocs_conf() { return ncpu(); }
int sim_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int sim_sched_setaffinity(pid_t, size_t, const cpu_set_t*) { return 0; }
int sim_pthread_attr_init(pthread_attr_t* a) { return pthread_attr_init(a); } int sim_pthread_attr_destroy(pthread_attr_t* a) { return pthread_attr_destroy(a); }
int sim_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { return pthread_attr_setstacksize(a, n); } int sim_pthread_attr_setdetachstate(pthread_attr_t* a, int d) { return pthread_attr_setdetachstate(a, d); }
struct Mx { Task* owner = nullptr; int depth = 0; int readers = 0; };
static std::map<U, Mx> mxs;
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int s = insim; insim = 0; mxs.erase((U)m); insim = s; range(m, sizeof *m, 1, PC); return pthread_mutex_init(m, a); }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { int s = insim; insim = 0; mxs.erase((U)m); insim = s; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!cur) return 0; int s = insim; insim = 0; Mx& x = mxs[(U)m]; int kind = m->__data.__kind & 3;
  if (x.owner == cur && kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; insim = s; return 0; }
  Task* me = cur; block_until("a mutex", m, [&] { return x.owner == nullptr; }); x.owner = me; x.depth = 1; acquire(m); insim = s; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { if (!cur) return 0; tick(); int s = insim; insim = 0; Mx& x = mxs[(U)m]; int r = EBUSY; if (!x.owner) { x.owner = cur; x.depth = 1; acquire(m); r = 0; } insim = s; return r; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!cur) return 0; int s = insim; insim = 0; Mx& x = mxs[(U)m];
  if (x.owner != cur) rt_fail("thread", "unlock of a mutex held by another thread or by none");
  if (--x.depth == 0) { release(m); x.owner = nullptr; wake(m); } cur->steps++; if (cur->steps >= cur->next) sched_point(false); insim = s; return 0;
}
int sim_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; } int sim_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static std::map<U, std::vector<Task*>> condq;
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  int s = insim; insim = 0; Task* me = cur; condq[(U)c].push_back(me); Mx& x = mxs[(U)m]; x.depth = 0; release(m); x.owner = nullptr; wake(m);
  block_until("a condition", c, [&] { auto& q = condq[(U)c]; return std::find(q.begin(), q.end(), me) == q.end(); }); acquire(c);
  block_until("a mutex", m, [&] { return mxs[(U)m].owner == nullptr; }); mxs[(U)m].owner = me; mxs[(U)m].depth = 1; acquire(m); insim = s; return 0;
}
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  int s = insim; insim = 0; Task* me = cur; condq[(U)c].push_back(me); insim = s; sim_pthread_mutex_unlock(m); auto in = [&] { auto& q = condq[(U)c]; return std::find(q.begin(), q.end(), me); };
  int r = ETIMEDOUT; for (int k = patience(); ; k--) { int t = insim; insim = 0; bool got = in() == condq[(U)c].end(); if (got) acquire(c); else if (k <= 0) condq[(U)c].erase(in()); insim = t; if (got) r = 0; if (got || k <= 0) break; sim_pthread_yield(); }
  sim_pthread_mutex_lock(m); return r;
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return sim_pthread_cond_timedwait(c, m, t); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { for (int k = patience(); k >= 0; k--) { if (!sim_pthread_mutex_trylock(m)) return 0; sim_pthread_yield(); } return ETIMEDOUT; }
int sim_sem_timedwait(void* m, const struct timespec*) { for (int k = patience(); k >= 0; k--) { if (!sim_sem_trywait(m)) return 0; sim_pthread_yield(); } errno = ETIMEDOUT; return -1; }
int sim_pthread_cond_signal(pthread_cond_t* c) { int s = insim; insim = 0; cur->steps++; release(c); auto& q = condq[(U)c]; if (!q.empty()) { q.erase(q.begin() + srng.below(q.size())); wake(c); } insim = s; return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { int s = insim; insim = 0; cur->steps++; release(c); condq[(U)c].clear(); wake(c); insim = s; return 0; }
struct Bar { unsigned n = 0, in = 0, gen = 0; }; static std::map<U, Bar> bars;
int sim_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { int s = insim; insim = 0; bars[(U)b] = Bar{n, 0, 0}; insim = s; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t* b) {
  int s = insim; insim = 0; Bar& x = bars[(U)b]; release(b); unsigned g = x.gen; int r = 0;
  if (++x.in == x.n) { x.in = 0; x.gen++; wake(b); r = PTHREAD_BARRIER_SERIAL_THREAD; } else block_until("a barrier", b, [&] { return x.gen != g; });
  acquire(b); insim = s; return r;
}
static std::map<U, int> onces;
int sim_pthread_once(pthread_once_t* o, void (*f)()) { int s = insim; insim = 0; int& st = onces[(U)o]; if (st == 0) { st = 1; insim = 1; f(); insim = 0; st = 2; release(o); wake(o); } else block_until("a once", o, [&] { return st == 2; }); acquire(o); insim = s; return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { return 0; } int sim_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) { int s = insim; insim = 0; Mx& x = mxs[(U)l]; Task* me = cur; block_until("a lock", l, [&] { return !x.owner && !x.readers; }); x.owner = me; acquire(l); insim = s; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) { int s = insim; insim = 0; Mx& x = mxs[(U)l]; block_until("a lock", l, [&] { return !x.owner; }); x.readers++; acquire(l); insim = s; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) { int s = insim; insim = 0; Mx& x = mxs[(U)l]; release(l); if (x.owner == cur) x.owner = nullptr; else x.readers--; wake(l); insim = s; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { tick(); int s = insim; insim = 0; Mx& x = mxs[(U)l]; int r = x.owner || x.readers ? EBUSY : 0; if (!r) { x.owner = cur; acquire(l); } insim = s; return r; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { tick(); int s = insim; insim = 0; Mx& x = mxs[(U)l]; int r = x.owner ? EBUSY : 0; if (!r) { x.readers++; acquire(l); } insim = s; return r; }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { tick(); int s = insim; insim = 0; Mx& x = mxs[(U)m]; int r = x.owner ? EBUSY : 0; if (!r) { x.owner = cur; acquire((void*)m); } insim = s; return r; }
int sim_pthread_spin_init(pthread_spinlock_t*, int) { return 0; } int sim_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { int s = insim; insim = 0; Mx& x = mxs[(U)m]; Task* me = cur; block_until("a lock", (void*)m, [&] { return !x.owner; }); x.owner = me; acquire((void*)m); insim = s; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { int s = insim; insim = 0; Mx& x = mxs[(U)m]; release((void*)m); x.owner = nullptr; wake((void*)m); insim = s; return 0; }
// semaphores: the count lives in the object's first word
#define SEM(m) (*(int*)(m))
int sim_sem_init(void* m, int, unsigned v) { SEM(m) = v; return 0; } int sim_sem_destroy(void*) { return 0; }
int sim_sem_wait(void* m) { int s = insim; insim = 0; block_until("a semaphore", m, [&] { return SEM(m) > 0; }); SEM(m)--; acquire(m); insim = s; return 0; }
int sim_sem_trywait(void* m) { tick(); if (SEM(m) <= 0) { errno = EAGAIN; return -1; } SEM(m)--; int s = insim; insim = 0; acquire(m); insim = s; return 0; }
int sim_sem_post(void* m) { int s = insim; insim = 0; release(m); SEM(m)++; wake(m); cur->steps++; if (cur->steps >= cur->next) sched_point(false); insim = s; return 0; }
int sim_sem_getvalue(void* m, int* v) { *v = SEM(m); return 0; }
static unsigned nkeys; static std::map<unsigned, void (*)(void*)> keydel;
// what a thread kept under a key is given to the key's destructor when the thread ends
static void run_keys(Task* t) { for (int round = 0; round < 4; round++) for (auto& k : keydel) { auto it = t->keys.find(k.first); if (it == t->keys.end() || !it->second || !k.second) continue; void* v = it->second; it->second = nullptr; auto f = k.second; insim = 1; f(v); insim = 0; } }
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { int s = insim; insim = 0; keydel[*k = ++nkeys] = d; insim = s; return 0; } int sim_pthread_key_delete(pthread_key_t) { return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { int s = insim; insim = 0; void* r = cur ? cur->keys[k] : nullptr; insim = s; return r; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { int s = insim; insim = 0; cur->keys[k] = (void*)v; insim = s; return 0; }
// function local statics of the C++ part
int sim___cxa_guard_acquire(uint64_t* g) { if (*(char*)g) { if (cur) { int s = insim; insim = 0; acquire(g); insim = s; } return 0; } if (!cur) { return 1; }
  int s = insim; insim = 0; Mx& x = mxs[(U)g]; Task* me = cur; block_until("the initialisation of a static", g, [&] { return *(char*)g || !x.owner; }); if (*(char*)g) { acquire(g); insim = s; return 0; } x.owner = me; insim = s; return 1; }
void sim___cxa_guard_release(uint64_t* g) { *(char*)g = 1; if (!cur) return; int s = insim; insim = 0; release(g); mxs[(U)g].owner = nullptr; wake(g); insim = s; }
void sim___cxa_guard_abort(uint64_t* g) { if (!cur) return; int s = insim; insim = 0; mxs[(U)g].owner = nullptr; wake(g); insim = s; }
}  // extern "C"

void rt_footprint(int n) { jpstream_sim_footprint = n; }
void rt_add_file(const std::string& n, const std::string& c) { auto*& p = fs[n]; if (!p) p = new std::string; *p = c; written[p]++; }
std::string* rt_file(const std::string& n) { auto it = fs.find(n); return it == fs.end() ? nullptr : it->second; }
int rt_open_files() { return openf.size() + fds.size(); }
uint64_t rt_fired(int k) { return R->st.fired[k]; }

// ---------------------------------------------------------------- C++ allocation: the arena while instrumented code runs
static void* cxx_new(size_t n, U pc) {
  if (cur && insim) { tick(); insim = 0; void* p = inject(F_MALLOC) ? nullptr : arena_alloc(n, 1, pc); insim = 1; if (!p) throw std::bad_alloc(); return p; }
  void* p = malloc(n ? n : 1); if (!p) abort(); return p;
}
static void cxx_delete(void* p, U pc) {
  if (!p) return; if (!in_arena(p)) { free(p); return; }
  int s = insim; if (cur && insim) tick(); insim = 0; arena_free(p, 1, pc); insim = s;
}
void* operator new(size_t n) { return cxx_new(n, PC); }
void* operator new[](size_t n) { return cxx_new(n, PC); }
void operator delete(void* p) noexcept { cxx_delete(p, PC); }
void operator delete[](void* p) noexcept { cxx_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { cxx_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { cxx_delete(p, PC); }

// Deterministic simulator core: scheduler, clocks, thread primitives, choice log, run loop.
// Compiled WITHOUT instrumentation. Linked after the harness so instrumented templates win.
#include "sim_internal.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <memory>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
}

namespace sim {

// ------------------------------------------------------------------ shared result area
static const uint32_t CHOICE_CAP = 3000000;
static const uint32_t TRACE_CAP = 8u << 20;
static const int NCOUNT = 160;
struct Counter { char name[44]; uint32_t kind; uint64_t n; };  // kind 1 fault, 2 probe
struct Shared {
  int status;  // 0 running, 1 ok, 2 violation, 3 budget
  char cls[200];
  char msg[2000];
  uint64_t hash, sched_hash;
  uint32_t nchoices;
  uint64_t steps, switches;
  int64_t sim_ns;
  uint32_t nontrivial;
  int ncounters;
  Counter counters[NCOUNT];
  uint32_t trace_len;
  uint32_t val[CHOICE_CAP];
  uint32_t bound[CHOICE_CAP];
  char trace[TRACE_CAP];
};
static Shared* S;
static bool g_trace = false;          // text trace wanted (replay)
static bool g_replay = false;
static const uint32_t* g_rep = nullptr;
static uint32_t g_nrep = 0;

bool g_active = false;
__thread Thread* self = nullptr;
__thread int core_depth = 0;
int64_t g_now = 0, g_wall_off = 0;
bool clock_frozen = false;
static uint64_t g_clock_reads = 0;
std::vector<Thread*>* g_threads = nullptr;
static Thread* g_current = nullptr;
static Config g_cfg;
static int g_next_pid = 1;
static int g_live = 1;                 // threads that are neither DONE nor DEAD
static std::set<int>* g_killed = nullptr;

static int64_t g_gap = 1 << 30, g_gap_size = 1 << 30;
// generator strategy (not part of the choice log)
static int g_strategy = 0;             // 0 random walk, 1 PCT, 2 mostly run-to-block
static uint32_t g_gap_mean = 50;
static uint32_t g_switch_den = 2;
static uint32_t g_alloc_den = 0;
static bool g_alloc_fired = false;

Config& config() { return g_cfg; }
uint64_t clock_reads() { return g_clock_reads; }

// ------------------------------------------------------------------ rng
static uint64_t rs[4];
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static void rng_seed(uint64_t s) { for (int i = 0; i < 4; i++) rs[i] = splitmix(s); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next() {
  uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
  return r;
}
uint64_t gen_rand() { return rng_next(); }
bool generating() { return !g_replay; }

static inline void mix(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; }

static void trace_raw(const char* s) {
  if (!g_trace) return;
  size_t n = strlen(s);
  if (S->trace_len + n + 2 >= TRACE_CAP) return;
  memcpy(S->trace + S->trace_len, s, n);
  S->trace_len += n;
  S->trace[S->trace_len++] = '\n';
}
static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...) {
  if (!g_trace) return;
  CoreGuard g;
  char b[600];
  int k = snprintf(b, 80, "[t=%lld.%09lld T%d P%d] ", (long long)(g_now / 1000000000), (long long)(g_now % 1000000000),
                   self ? self->tid : -1, self ? self->pid : -1);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  trace_raw(b);
}

[[noreturn]] static void finish(int status) {
  S->status = status;
  S->sim_ns = g_now;
  _exit(status == 1 ? 0 : 3);
}

[[noreturn]] void finish_violation(const char* cls, const char* msg) {
  ++core_depth;
  if (S->status == 0) {
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg);
    tracef("VIOLATION %s: %s", cls, msg);
  }
  finish(2);
}
void violation(const char* cls, const char* fmt, ...) {
  ++core_depth;
  char b[1900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finish_violation(cls, b);
}

static void log_choice(uint32_t n, uint32_t v, const char* label) {
  if (S->nchoices >= CHOICE_CAP) finish(3);
  S->val[S->nchoices] = v;
  S->bound[S->nchoices] = n;
  S->nchoices++;
  mix(S->hash, ((uint64_t)n << 32) | v);
  if (g_trace && label && v) tracef("choice #%u %s = %u of %u", S->nchoices - 1, label, v, n);
}
static bool replay_value(uint32_t n, uint32_t* v) {
  if (!g_replay) return false;
  uint32_t i = S->nchoices;
  *v = i < g_nrep ? (g_rep[i] < n ? g_rep[i] : n - 1) : 0;
  return true;
}
uint32_t choose(uint32_t n, const char* label) {
  if (n <= 1) return 0;
  uint32_t v;
  if (!replay_value(n, &v)) v = (uint32_t)(rng_next() >> 32) % n;
  log_choice(n, v, label);
  return v;
}
uint32_t choose_gen(uint32_t n, uint32_t genval) {
  if (n <= 1) return 0;
  uint32_t v;
  if (!replay_value(n, &v)) v = genval < n ? genval : n - 1;
  log_choice(n, v, nullptr);
  return v;
}
bool chance(uint32_t num, uint32_t den, const char* label) {
  if (den == 0 || num == 0) return false;
  uint32_t v;
  if (!replay_value(2, &v)) v = (rng_next() >> 32) % den < num;
  log_choice(2, v, label);
  return v != 0;
}
int64_t range(int64_t lo, int64_t hi, const char* label) {
  if (hi <= lo) return lo;
  return lo + (int64_t)choose((uint32_t)(hi - lo + 1), label);
}

void event(const char* fmt, ...) {
  CoreGuard g;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  uint64_t h = 1469598103934665603ULL;
  for (char* p = b; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
  mix(S->hash, h);
  tracef("%s", b);
}
static void count(const char* name, uint32_t kind) {
  for (int i = 0; i < S->ncounters; i++)
    if (S->counters[i].kind == kind && !strcmp(S->counters[i].name, name)) { S->counters[i].n++; return; }
  if (S->ncounters < NCOUNT) {
    Counter& c = S->counters[S->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.kind = kind;
    c.n = 1;
  }
}
void fault(const char* kind) { CoreGuard g; count(kind, 1); S->nontrivial = 1; tracef("FAULT %s", kind); mix(S->hash, 0xFA); }
void probe(const char* name) { CoreGuard g; count(name, 2); }
void nontrivial() { S->nontrivial = 1; }

// ------------------------------------------------------------------ real functions
static void* lookup(const char* n) {
  CoreGuard g;
  void* p = dlsym(RTLD_NEXT, n);
  return p;
}
#define REAL(ret, name, ...) \
  typedef ret (*name##_fp)(__VA_ARGS__); \
  static name##_fp real_##name() { static name##_fp f; if (!f) f = (name##_fp)lookup(#name); return f; }

REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REAL(int, pthread_once, pthread_once_t*, void (*)(void))

// ------------------------------------------------------------------ scheduler
static int futex(int* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
static void wake(Thread* t) {
  __atomic_store_n(&t->word, 1, __ATOMIC_RELEASE);
  futex(&t->word, FUTEX_WAKE_PRIVATE, 1);
}
static void wait_turn(Thread* t) {
  while (!__atomic_load_n(&t->word, __ATOMIC_ACQUIRE)) futex(&t->word, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->word, 0, __ATOMIC_RELAXED);
}

static bool is_ready(Thread* t) {
  if (t->state == Thread::RUNNABLE) return true;
  if (t->state != Thread::BLOCKED) return false;
  if (t->deadline >= 0 && g_now >= t->deadline) return true;
  return t->pred && t->pred();
}

static void draw_gap() {
  S->steps += g_gap_size;
  if (g_live > 1 && g_cfg.preempt && g_gap_mean) {
    uint32_t v;
    uint32_t bound = 100000;
    uint32_t gen = 1 + (uint32_t)(rng_next() >> 33) % (2 * g_gap_mean);
    v = choose_gen(bound, gen);
    g_gap = v ? v : 1000000;
  } else {
    g_gap = 1000000;
  }
  g_gap_size = g_gap;
}

static void handoff(Thread* next, bool leave) {
  if (next == self) return;
  Thread* me = self;
  g_current = next;
  S->switches++;
  mix(S->sched_hash, next->tid);
  wake(next);
  if (!leave) wait_turn(me);
}

[[noreturn]] static void deadlock() {
  std::string m = "no thread can run:";
  for (Thread* t : *g_threads)
    if (t->state == Thread::BLOCKED) { m += " T" + std::to_string(t->tid) + "(" + t->name + ") waits for " + t->what + ";"; }
  finish_violation("deadlock", m.c_str());
}

// choose who runs next; the caller has set its own state
static Thread* choose_next() {
  for (;;) {
    Thread* c[256];
    uint32_t n = 0;
    if (self && is_ready(self)) c[n++] = self;
    for (Thread* t : *g_threads)
      if (t != self && n < 255 && is_ready(t)) c[n++] = t;
    int64_t mind = -1;
    for (Thread* t : *g_threads)
      if (t->state == Thread::BLOCKED && t->deadline > g_now && (mind < 0 || t->deadline < mind)) mind = t->deadline;
    if (n == 0) {
      if (mind < 0) deadlock();
      g_now = mind;
      continue;
    }
    if (n == 1) {
      if (mind >= 0 && c[0] != self) {
        // occasionally a timer fires first: the runnable thread was stalled
        if (g_cfg.stalls && chance(1, 16, "stall")) { g_now = mind; count("stall", 1); continue; }
      }
      return c[0];
    }
    uint32_t gen = 0;
    if (!g_replay) {
      if (g_strategy == 1) {
        for (uint32_t i = 1; i < n; i++) if (c[i]->prio > c[gen]->prio) gen = i;
        if (rng_next() % 24 == 0) { c[gen]->prio = (uint32_t)(rng_next() % 1000); }
      } else if (c[0] == self && rng_next() % g_switch_den) {
        gen = 0;
      } else {
        gen = (uint32_t)((rng_next() >> 32) % n);
      }
    }
    return c[choose_gen(n, gen)];
  }
}

static void watch_steps() {
  if (S->steps > g_cfg.step_cap) finish_violation("hang", "the step budget of the run was exhausted without progress to the end");
}

void sched(const char* why) {
  if (g_live <= 1) { return; }
  CoreGuard g;
  S->steps += 20;
  watch_steps();
  Thread* n = choose_next();
  if (n != self) tracef("switch to T%d (%s) at %s", n->tid, n->name.c_str(), why ? why : "?");
  handoff(n, false);
}

static void hook_slow() {
  if (!g_active || !self || core_depth) { g_gap = 1; return; }
  CoreGuard g;
  draw_gap();
  watch_steps();
  if (g_live > 1 && g_cfg.preempt && !self->nopre) {
    Thread* n = choose_next();
    if (n != self) tracef("switch to T%d (%s) at memory access", n->tid, n->name.c_str());
    handoff(n, false);
  }
}

void block_on(const std::function<bool()>& pred, int64_t deadline, const char* what) {
  CoreGuard g;
  for (;;) {
    if (pred && pred()) return;
    if (deadline >= 0 && g_now >= deadline) return;
    self->pred = pred;
    self->deadline = deadline;
    self->what = what;
    self->state = Thread::BLOCKED;
    S->steps += 20;
    watch_steps();
    Thread* n = choose_next();
    if (n != self) tracef("T%d waits for %s; switch to T%d (%s)", self->tid, what, n->tid, n->name.c_str());
    Thread* me = self;
    handoff(n, false);
    me->state = Thread::RUNNABLE;
    me->deadline = -1;
    me->pred = nullptr;
  }
}

void block_until(const std::function<bool()>& pred, int64_t deadline, const char* what) { block_on(pred, deadline, what); }

static void thread_exit_handoff() {
  CoreGuard g;
  self->state = Thread::DONE;
  g_live--;
  Thread* n = choose_next();
  g_current = n;
  S->switches++;
  mix(S->sched_hash, n->tid);
  wake(n);
}

static void* thread_main(void* p) {
  Thread* t = (Thread*)p;
  self = t;
  core_depth = 0;
  wait_turn(t);
  try {
    if (t->cfn) t->ret = t->cfn(t->carg);
    else t->fn();
  } catch (const std::exception& e) {
    finish_violation("uncaught-exception", e.what());
  } catch (...) {
    finish_violation("uncaught-exception", "unknown exception left a thread");
  }
  thread_exit_handoff();
  self = nullptr;
  return nullptr;
}

Thread* new_thread(int pid, const char* name) {
  Thread* t = new Thread();
  t->tid = (int)g_threads->size();
  t->pid = pid;
  t->name = name ? name : "thread";
  t->prio = (uint32_t)(rng_next() % 1000);
  g_threads->push_back(t);
  g_live++;
  return t;
}
void start_thread(Thread* t) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 4u << 20);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  int r = real_pthread_create()(&t->real, &a, thread_main, t);
  if (r) { S->status = 0; finish(3); }
  pthread_attr_destroy(&a);
  if (g_gap > 10000) { g_gap_size -= g_gap - 1; g_gap = 1; }
}

int spawn(std::function<void()> fn, const char* name) {
  CoreGuard g;
  Thread* t = new_thread(self->pid, name);
  t->fn = std::move(fn);
  start_thread(t);
  sched("spawn");
  return t->tid;
}
int spawn_process(std::function<void()> fn, const char* name) {
  CoreGuard g;
  int pid = g_next_pid++;
  Thread* t = new_thread(pid, name);
  t->fn = std::move(fn);
  start_thread(t);
  sched("spawn");
  return pid;
}
void join(int tid) {
  Thread* t = (*g_threads)[tid];
  block_on([t] { return t->state == Thread::DONE || t->state == Thread::DEAD; }, -1, "join");
}
static bool pid_gone(int pid) {
  for (Thread* t : *g_threads)
    if (t->pid == pid && t->state != Thread::DONE && t->state != Thread::DEAD) return false;
  return true;
}
Exit wait_process(int pid) {
  block_on([pid] { return pid_gone(pid); }, -1, "process end");
  fs_process_gone(pid);
  return g_killed->count(pid) ? EXIT_KILLED : EXIT_NORMAL;
}
Exit run_process(std::function<void()> fn, const char* name) { return wait_process(spawn_process(std::move(fn), name)); }
static void mark_dead(int pid) {
  g_killed->insert(pid);
  for (Thread* t : *g_threads)
    if (t->pid == pid && t->state != Thread::DONE && t->state != Thread::DEAD) { t->state = Thread::DEAD; g_live--; }
  fs_process_gone(pid);
}
void kill_process(int pid) {
  CoreGuard g;
  if (pid_gone(pid)) return;
  fault("kill");
  mark_dead(pid);
}
void kill_self() {
  ++core_depth;
  fault("kill");
  Thread* me = self;
  mark_dead(me->pid);
  Thread* n = choose_next();
  g_current = n;
  S->switches++;
  mix(S->sched_hash, n->tid);
  wake(n);
  for (;;) wait_turn(me);
}
int current_tid() { return self ? self->tid : -1; }
int current_pid() { return self ? self->pid : -1; }
void sched_point(const char* what) {
  if (!g_active || !self || self->nopre) return;
  sched(what);
}
void no_preempt(bool on) { if (self) self->nopre += on ? 1 : -1; }

// ------------------------------------------------------------------ time
int64_t mono_ns() { return g_now; }
int64_t wall_ns() { return g_now + g_wall_off; }
void set_wall_offset(int64_t ns) { g_wall_off = ns; }
void advance(int64_t ns) { g_now += ns; }
static void clock_tick() {
  g_clock_reads++;
  if (clock_frozen || !g_cfg.clock_ticks) return;
  // mostly small steps, sometimes a long pause (the thread lost the CPU between two reads)
  uint32_t k = choose(8, nullptr);
  if (k == 7) { g_now += (int64_t)choose((uint32_t)std::min<int64_t>(g_cfg.max_tick_ns, 2000000000LL)) + 1; }
  else if (k) g_now += k * 37;
}
int64_t clock_read_mono() { CoreGuard g; clock_tick(); return g_now; }
std::vector<int64_t>* wall_log = nullptr;
int64_t clock_read_wall() {
  CoreGuard g;
  clock_tick();
  if (g_cfg.wall_jumps && chance(1, 4, "wall clock jump")) {
    int64_t d = ((int64_t)choose(200001) - 100000) * 50000000LL + (int64_t)choose(1000) * 1000000LL;
    g_wall_off += d;
    if (g_now + g_wall_off < 1000000000LL) g_wall_off = 1600000000LL * 1000000000LL;
    fault("wall_clock_jump");
  }
  if (wall_log) wall_log->push_back(g_now + g_wall_off);
  return g_now + g_wall_off;
}
void sleep_ns(int64_t ns) {
  int64_t until = g_now + std::max<int64_t>(ns, 0);
  block_on(nullptr, until, "sleep");
}

// ------------------------------------------------------------------ allocation faults
void alloc_faults(uint32_t den) { g_alloc_den = den; }
bool alloc_fault_fired() { return g_alloc_fired; }
void alloc_fault_clear() { g_alloc_fired = false; }
void alloc_arm(bool on) { if (self) self->alloc_armed = on; }
static bool alloc_should_fail() {
  if (!g_alloc_den || !g_active || !self || core_depth || !self->alloc_armed) return false;
  CoreGuard g;
  if (chance(1, g_alloc_den, "allocation failure")) {
    g_alloc_fired = true;
    fault("alloc_failure");
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ checked heap
// Every block the code under test allocates comes from an arena with red zones and a shadow map: each instrumented access is
// checked against it, fresh blocks hold a junk pattern, freed blocks stay poisoned until reused much later.
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 2ull << 30;
static const uintptr_t SHADOW = 0x200000000000ull;
struct Blk { uint32_t magic; uint32_t cls; uint64_t size; };
static const uint32_t LIVE = 0x5AFE5AFE, DEAD = 0xDEADDEAD;
static size_t g_brk = 64;
static const int NCLS = 512;
struct FreeQ { uint32_t head = 0, tail = 0, n = 0; };  // FIFO through the first bytes of the freed block, in 16-byte units
static FreeQ g_freeq[NCLS];
bool g_heap = false;
static void heap_init() {
  void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  g_heap = a == (void*)ARENA && b == (void*)SHADOW;
}
static inline bool in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
static size_t cls_round(size_t n, uint32_t* c) {
  n = (n + 15) & ~(size_t)15;
  if (!n) n = 16;
  if (n <= 4096) { *c = (uint32_t)(n / 16); return n; }
  uint32_t k = 257;
  size_t r = 4096;
  while (r < n) { size_t step = r / 4; for (int i = 1; i <= 4 && r < n; i++) { k++; if (r + step * i >= n) return *c = k, (r + step * i + 15) & ~(size_t)15; } r *= 2; }
  *c = k;
  return r;
}
static void* heap_alloc(size_t n, bool zero) {
  uint32_t c;
  if (n > ARENA_SZ / 4) return nullptr;
  size_t r = cls_round(n, &c);
  FreeQ& q = g_freeq[c];
  char* base;
  if (q.n > (r <= 4096 ? 32u : 1u)) {
    base = (char*)ARENA + (size_t)q.head * 16;
    q.head = *(uint32_t*)(base + 16);
    q.n--;
  } else {
    size_t need = 16 + r + 16;
    if (g_brk + need > ARENA_SZ) return nullptr;
    base = (char*)ARENA + g_brk;
    g_brk += need;
  }
  Blk* b = (Blk*)base;
  b->magic = LIVE; b->cls = c; b->size = n;
  char* p = base + 16;
  memset(p, zero ? 0 : 0xCB, n);
  memset(p + n, 0xFD, r - n + 16);
  uint8_t* sh = (uint8_t*)SHADOW + ((uintptr_t)p - ARENA) / 8;
  memset(sh, 8, n / 8);
  if (n & 7) sh[n / 8] = n & 7;
  return p;
}
static void mem_violation(const char* cls, const char* msg, const void* p, size_t size) {
  if (core_depth) return;
  ++core_depth;
  char b[300];
  snprintf(b, sizeof b, "%s (block of %zu bytes)", msg, size);
  (void)p;
  finish_violation(cls, b);
}
static void heap_check_tail(Blk* b) {
  const unsigned char* t = (unsigned char*)b + 16 + b->size;
  for (int i = 0; i < 16; i++) if (t[i] != 0xFD) mem_violation("memory-overrun", "memory behind a heap block was overwritten", b, b->size);
}
static void heap_free(void* v) {
  Blk* b = (Blk*)((char*)v - 16);
  if (b->magic != LIVE || ((uintptr_t)v & 15)) { if (g_active) mem_violation("memory-bad-free", "memory was freed twice or never allocated", v, 0); return; }
  if (g_active) heap_check_tail(b);
  b->magic = DEAD;
  memset((uint8_t*)SHADOW + ((uintptr_t)v - ARENA) / 8, 0, (b->size + 7) / 8);
  memset(v, 0xDD, std::min<size_t>(b->size, 256));
  FreeQ& q = g_freeq[b->cls];
  uint32_t me = (uint32_t)(((uintptr_t)b - ARENA) / 16);
  if (q.n) *(uint32_t*)((char*)ARENA + (size_t)q.tail * 16 + 16) = me;
  else q.head = me;
  q.tail = me;
  q.n++;
}
static void heap_bad(const void* p) {
  if (!g_active || !self || core_depth) return;
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)15;
  // find the block before the address for the report
  for (int i = 0; i < 1 << 16 && a > ARENA + 64; i++, a -= 16) {
    Blk* b = (Blk*)a;
    if (b->magic == LIVE && b->cls < NCLS && b->size < ARENA_SZ) return mem_violation("memory-out-of-bounds", "memory outside a heap block was accessed", p, b->size);
    if (b->magic == DEAD && b->cls < NCLS && b->size < ARENA_SZ) return mem_violation("memory-use-after-free", "freed memory was accessed", p, b->size);
  }
  mem_violation("memory-out-of-bounds", "memory outside any heap block was accessed", p, 0);
}
static inline void mem_check(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p - ARENA;
  if (a >= ARENA_SZ) return;
  const uint8_t* sh = (const uint8_t*)SHADOW;
  uintptr_t l = a + n - 1;
  if (__builtin_expect(sh[a >> 3] <= (a & 7) || sh[l >> 3] <= (l & 7), 0)) heap_bad(p);
}

void check_range(const void* p, size_t n) { if (n) mem_check(p, n); }
bool assert_kills = false;
char last_assert[256];

// ------------------------------------------------------------------ mutexes etc.
struct Mtx { Thread* owner = nullptr; int depth = 0; int readers = 0; };
static std::unordered_map<const void*, Mtx>* g_mtx;
struct Cv { std::vector<std::pair<Thread*, bool*>> waiters; };
static std::unordered_map<const void*, Cv>* g_cv;
static std::unordered_map<const void*, int>* g_once;   // 1 running, 2 done
static std::unordered_map<const void*, int>* g_sem;

static int mtx_lock(void* m, bool recursive, bool try_only, int64_t deadline) {
  CoreGuard g;
  if (!self->nopre) sched("lock");
  Mtx& x = (*g_mtx)[m];
  if (x.owner == self && recursive) { x.depth++; return 0; }
  if (x.owner == nullptr && x.readers == 0) { x.owner = self; x.depth = 1; return 0; }
  if (try_only) return EBUSY;
  Mtx* px = &x;  // unordered_map nodes are stable
  block_on([px] { return px->owner == nullptr && px->readers == 0; }, deadline, "mutex");
  if (px->owner || px->readers) return ETIMEDOUT;
  px->owner = self;
  px->depth = 1;
  return 0;
}
static int mtx_unlock(void* m) {
  CoreGuard g;
  Mtx& x = (*g_mtx)[m];
  if (x.owner == self) {
    if (--x.depth == 0) x.owner = nullptr;
  } else if (x.readers > 0) {
    x.readers--;
  } else {
    finish_violation("mutex-misuse", "a mutex was unlocked by a thread that does not hold it");
  }
  if (!self->nopre) sched("unlock");
  return 0;
}
static int cv_wait(void* c, void* m, int64_t deadline) {
  CoreGuard g;
  bool woken = false;
  Mtx& x = (*g_mtx)[m];
  int depth = x.depth;
  x.owner = nullptr;
  x.depth = 0;
  (*g_cv)[c].waiters.push_back({self, &woken});
  if (g_cfg.spurious && chance(1, 10, "spurious wake-up")) { woken = true; fault("spurious_wakeup"); sched("spurious"); }
  bool* w = &woken;
  block_on([w] { return *w; }, deadline, "condition");
  auto& ws = (*g_cv)[c].waiters;
  for (size_t i = 0; i < ws.size(); i++) if (ws[i].second == w) { ws.erase(ws.begin() + i); break; }
  Mtx* px = &(*g_mtx)[m];
  block_on([px] { return px->owner == nullptr && px->readers == 0; }, -1, "mutex");
  px->owner = self;
  px->depth = depth;
  return woken ? 0 : ETIMEDOUT;
}
static void cv_wake(void* c, bool all) {
  CoreGuard g;
  auto& ws = (*g_cv)[c].waiters;
  std::vector<size_t> idle;
  for (size_t i = 0; i < ws.size(); i++) if (!*ws[i].second) idle.push_back(i);
  if (idle.empty()) return;
  if (all) for (size_t i : idle) *ws[i].second = true;
  else *ws[idle[choose((uint32_t)idle.size(), "wake which")]].second = true;
  if (!self->nopre) sched("notify");
}

// ------------------------------------------------------------------ scenarios and main
static std::map<std::string, ScenarioFn>& registry() { static std::map<std::string, ScenarioFn> r; return r; }
Reg::Reg(const char* name, ScenarioFn fn) { registry()[name] = fn; }

static void on_signal(int sig) {
  // crash of the code under test
  if (S && S->status == 0 && g_active) {
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal";
    snprintf(S->cls, sizeof S->cls, "crash:%s", n);
    snprintf(S->msg, sizeof S->msg, "the code under test crashed with %s", n);
    S->status = 2;
  }
  _exit(3);
}

static void child_main(ScenarioFn fn, uint64_t seed) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (!getenv("SIM_STDERR")) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 1);
    dup2(n, 2);
  }
  rng_seed(seed);
  struct rlimit rl = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  static char altstack[65536];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  g_mtx = new std::unordered_map<const void*, Mtx>();
  g_cv = new std::unordered_map<const void*, Cv>();
  g_once = new std::unordered_map<const void*, int>();
  g_sem = new std::unordered_map<const void*, int>();
  g_threads = new std::vector<Thread*>();
  g_killed = new std::set<int>();
  g_threads->reserve(256);
  Thread* t = new Thread();
  t->name = "main";
  t->real = pthread_self();
  g_threads->push_back(t);
  g_current = self = t;
  g_live = 1;
  g_now = 1000000000LL * 5000;
  g_wall_off = 1600000000LL * 1000000000LL;
  fs_init();
  static const uint32_t means[] = {0, 4, 15, 60, 300, 2000, 40, 8};
  g_gap_mean = means[rng_next() % 8];
  g_strategy = rng_next() % 3;
  g_switch_den = g_strategy == 2 ? 12 : 2;
  if (g_replay) g_gap_mean = 1;
  else if (g_gap_mean == 0) g_gap_mean = 50000;
  g_gap = 1000;
  g_gap_size = 1000;
  g_active = true;
  try {
    fn();
  } catch (const std::exception& e) {
    finish_violation("uncaught-exception", e.what());
  } catch (...) {
    finish_violation("uncaught-exception", "unknown exception");
  }
  ++core_depth;
  g_active = false;
  finish(1);
}

static volatile pid_t g_child = 0;
static volatile int g_timed_out = 0;
static void on_alarm(int) { g_timed_out = 1; if (g_child > 0) kill(g_child, SIGKILL); }

// The wall-clock limit only guards against a run that really never ends; on a loaded machine a run can be starved of
// the processor, so a run that was cut off is repeated (it is the same run) with more time before it counts as a hang.
static void run_once(ScenarioFn fn, uint64_t seed, unsigned wall);
static uint64_t g_starved = 0;
static void run_one(ScenarioFn fn, uint64_t seed, unsigned wall) {
  run_once(fn, seed, wall);
  if (S->status == 2 && g_timed_out && !strcmp(S->cls, "hang")) {
    run_once(fn, seed, wall * 2);
    if (!(S->status == 2 && g_timed_out)) g_starved++;
  }
}

static void run_once(ScenarioFn fn, uint64_t seed, unsigned wall) {
  memset((void*)S, 0, offsetof(Shared, val));
  S->hash = 0x1234567;
  g_timed_out = 0;
  pid_t p = fork();
  if (p == 0) { child_main(fn, seed); _exit(9); }
  g_child = p;
  alarm(wall);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  alarm(0);
  g_child = 0;
  if (S->status == 0) {
    if (g_timed_out) {
      S->status = 2;
      strcpy(S->cls, "hang");
      strcpy(S->msg, "the run made no end within the wall-clock limit");
    } else {
      S->status = 2;
      snprintf(S->cls, sizeof S->cls, "crash:exit");
      snprintf(S->msg, sizeof S->msg, "the simulated program ended abnormally (wait status 0x%x)", st);
    }
  }
}

static std::string jstr(const char* s) {
  std::string r = "\"";
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static double wall_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int main_run(int argc, char** argv) {
  // run SCENARIO BASE START STRIDE COUNT SECONDS OUT KNOWN(; separated) STOPFILE
  if (argc < 11) return 2;
  std::string scen = argv[2];
  uint64_t base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
           cnt = strtoull(argv[6], 0, 10);
  double secs = atof(argv[7]);
  std::string out = argv[8], known = std::string(";") + argv[9] + ";", stop = argv[10];
  bool dump = argc > 11;  // dump per-run hashes
  if (!registry().count(scen)) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 2; }
  ScenarioFn fn = registry()[scen];
  double t0 = wall_now();
  uint64_t runs = 0, nontriv = 0, budget = 0, steps = 0, switches = 0, choices = 0;
  double sim_s = 0;
  std::map<std::string, std::pair<uint64_t, uint64_t>> faults, probes;
  std::set<uint64_t> hashes, scheds;
  std::map<std::string, int> seen;
  FILE* fo = fopen(out.c_str(), "w");
  FILE* fd = dump ? fopen((out + ".dump").c_str(), "w") : nullptr;
  uint64_t nviol = 0;
  uint64_t keep = getenv("SIM_KEEP") ? strtoull(getenv("SIM_KEEP"), 0, 10) : 0;
  for (uint64_t i = start; runs < cnt; i += stride) {
    if (secs > 0 && wall_now() - t0 > secs) break;
    if ((runs & 15) == 0 && access(stop.c_str(), F_OK) == 0) break;
    uint64_t s = base * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 0x632BE59BD9B4E019ULL;
    run_one(fn, s, 20);
    runs++;
    steps += S->steps; switches += S->switches; choices += S->nchoices;
    sim_s += (S->sim_ns > 0 ? (S->sim_ns - 5000LL * 1000000000LL) : 0) * 1e-9;
    for (int k = 0; k < S->ncounters; k++) {
      auto& e = (S->counters[k].kind == 1 ? faults : probes)[S->counters[k].name];
      e.first += S->counters[k].n; e.second++;
    }
    if (S->status == 3) budget++;
    if (S->nontrivial || S->switches > 2) {
      nontriv++;
      if (hashes.size() < 4000000) hashes.insert(S->hash);
      if (scheds.size() < 4000000) scheds.insert(S->sched_hash);
    }
    if (fd) fprintf(fd, "%llu %d %016llx %016llx %s\n", (unsigned long long)i, S->status, (unsigned long long)S->hash,
                    (unsigned long long)S->sched_hash, S->cls);
    if (keep && runs % keep == 1) {  // the choices of some healthy runs as well, so that the check can show replaying them is exact
      FILE* fc = fopen((out + ".keep" + std::to_string(i)).c_str(), "w");
      for (uint32_t k = 0; k < S->nchoices; k++) fprintf(fc, "%u\n", S->val[k]);
      fclose(fc);
    }
    if (S->status == 2) {
      nviol++;
      if (seen[S->cls]++ < 3) {
        std::string cf = out + ".fail" + std::to_string(i);
        FILE* fc = fopen(cf.c_str(), "w");
        for (uint32_t k = 0; k < S->nchoices; k++) fprintf(fc, "%u\n", S->val[k]);
        fclose(fc);
        fprintf(fo, "{\"fail\":true,\"index\":%llu,\"cls\":%s,\"msg\":%s,\"choices\":%s,\"n\":%u,\"hash\":\"%016llx\"}\n", (unsigned long long)i,
                jstr(S->cls).c_str(), jstr(S->msg).c_str(), jstr(cf.c_str()).c_str(), S->nchoices, (unsigned long long)S->hash);
        fflush(fo);
      }
      if (known.find(std::string(";") + S->cls + ";") == std::string::npos) {
        int f = open(stop.c_str(), O_CREAT | O_WRONLY, 0644);
        if (f >= 0) close(f);
        break;
      }
    }
  }
  FILE* fh = fopen((out + ".hashes").c_str(), "wb");
  for (uint64_t h : hashes) fwrite(&h, 8, 1, fh);
  fclose(fh);
  fh = fopen((out + ".scheds").c_str(), "wb");
  for (uint64_t h : scheds) fwrite(&h, 8, 1, fh);
  fclose(fh);
  fprintf(fo, "{\"summary\":true,\"runs\":%llu,\"nontrivial\":%llu,\"budget\":%llu,\"steps\":%llu,\"switches\":%llu,\"choices\":%llu,\"sim_s\":%.6f,\"violations\":%llu",
          (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)budget, (unsigned long long)steps,
          (unsigned long long)switches, (unsigned long long)choices, sim_s, (unsigned long long)nviol);
  for (int pass = 0; pass < 2; pass++) {
    fprintf(fo, ",\"%s\":{", pass ? "probes" : "faults");
    bool first = true;
    for (auto& e : pass ? probes : faults) {
      fprintf(fo, "%s%s:[%llu,%llu]", first ? "" : ",", jstr(e.first.c_str()).c_str(), (unsigned long long)e.second.first, (unsigned long long)e.second.second);
      first = false;
    }
    fprintf(fo, "}");
  }
  fprintf(fo, "}\n");
  fclose(fo);
  if (fd) fclose(fd);
  return 0;
}

static void print_result(bool with_choices) {
  printf("{\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"n\":%u,\"switches\":%llu,\"steps\":%llu", S->status, jstr(S->cls).c_str(),
         jstr(S->msg).c_str(), (unsigned long long)S->hash, S->nchoices, (unsigned long long)S->switches, (unsigned long long)S->steps);
  if (with_choices) {
    printf(",\"val\":[");
    for (uint32_t i = 0; i < S->nchoices; i++) printf(i ? ",%u" : "%u", S->val[i]);
    printf("]");
  }
  printf("}\n");
  fflush(stdout);
}

static int main_replay(int argc, char** argv) {
  // replay SCENARIO FILE [trace]
  if (argc < 4) return 2;
  if (!registry().count(argv[2])) return 2;
  std::vector<uint32_t> v;
  FILE* f = fopen(argv[3], "r");
  if (!f) return 2;
  unsigned x;
  while (fscanf(f, "%u", &x) == 1) v.push_back(x);
  fclose(f);
  g_replay = true;
  g_rep = v.data();
  g_nrep = v.size();
  g_trace = argc > 4;
  run_once(registry()[argv[2]], 1, 45);
  if (g_trace) { fwrite(S->trace, 1, S->trace_len, stdout); }
  print_result(false);
  return 0;
}

// show SCENARIO BASE INDEX: one generated run with its trace
static int main_show(int argc, char** argv) {
  if (argc < 5 || !registry().count(argv[2])) return 2;
  uint64_t base = strtoull(argv[3], 0, 10), i = strtoull(argv[4], 0, 10);
  g_trace = true;
  run_once(registry()[argv[2]], base * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 0x632BE59BD9B4E019ULL, 45);
  fwrite(S->trace, 1, S->trace_len, stdout);
  print_result(false);
  return 0;
}

// serve SCENARIO: reads lines "k v v v ..." (k choices) from stdin, prints one result line each: used by the minimiser
static int main_serve(int argc, char** argv) {
  if (argc < 3 || !registry().count(argv[2])) return 2;
  std::vector<uint32_t> v;
  unsigned k;
  while (scanf("%u", &k) == 1) {
    v.resize(k);
    for (unsigned i = 0; i < k; i++) if (scanf("%u", &v[i]) != 1) return 2;
    g_replay = true;
    g_rep = v.data();
    g_nrep = k;
    run_once(registry()[argv[2]], 1, 20);
    print_result(true);
  }
  return 0;
}

}  // namespace sim

using namespace sim;

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  setenv("TZ", "UTC", 1);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  heap_init();
  struct sigaction sa{};
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  if (const char* c = getenv("SIM_CPU")) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(atoi(c), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  if (argc >= 2 && !strcmp(argv[1], "run")) return main_run(argc, argv);
  if (argc >= 2 && !strcmp(argv[1], "replay")) return main_replay(argc, argv);
  if (argc >= 2 && !strcmp(argv[1], "show")) return main_show(argc, argv);
  if (argc >= 2 && !strcmp(argv[1], "serve")) return main_serve(argc, argv);
  fprintf(stderr, "usage: run|replay|serve SCENARIO ...\n");
  return 2;
}

// ------------------------------------------------------------------ interposed functions
static int64_t ts_ns(const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }

extern "C" {

void* malloc(size_t n) {
  if (__builtin_expect(alloc_should_fail(), 0)) { errno = ENOMEM; return nullptr; }
  if (intercept() && g_heap) if (void* p = heap_alloc(n, false)) return p;
  return __libc_malloc(n);
}
void* calloc(size_t a, size_t b) {
  if (__builtin_expect(alloc_should_fail(), 0)) { errno = ENOMEM; return nullptr; }
  if (intercept() && g_heap && (!b || a <= ARENA_SZ / b)) if (void* p = heap_alloc(a * b, true)) return p;
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (__builtin_expect(alloc_should_fail(), 0)) { errno = ENOMEM; return nullptr; }
  if (!p) return malloc(n);
  if (!in_arena(p)) return __libc_realloc(p, n);
  if (!n) { heap_free(p); return nullptr; }
  Blk* b = (Blk*)((char*)p - 16);
  size_t old = b->size;
  void* q = nullptr;
  if (intercept()) q = heap_alloc(n, false);
  if (!q) q = __libc_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  heap_free(p);
  return q;
}
void free(void* p) {
  if (in_arena(p)) heap_free(p);
  else __libc_free(p);
}
size_t malloc_usable_size(void* p) {
  static size_t (*f)(void*); if (!f) f = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
  if (in_arena(p)) return ((Blk*)((char*)p - 16))->size;
  return f ? f(p) : 0;
}

void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
  ++core_depth;
  char m[1500], c[190];
  const char* b = strrchr(file, '/');
  snprintf(m, sizeof m, "assertion '%s' failed in %s (%s:%u)", expr, fn, file, line);
  snprintf(c, sizeof c, "assert:%s:%.120s", b ? b + 1 : file, expr);
  for (char* p = c; *p; p++) if (*p == ';') *p = ',';
  if (!g_active) { fprintf(stderr, "%s\n", m); _exit(99); }
  if (assert_kills) {
    snprintf(last_assert, sizeof last_assert, "%s", m);
    --core_depth;
    kill_self();
  }
  finish_violation(c, m);
}
void abort(void);
}
namespace std { __attribute__((noreturn)) void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* expr) noexcept {
  ++core_depth;
  char m[1500];
  snprintf(m, sizeof m, "the standard library found a misuse: '%s' failed in %s (%s:%d)", expr ? expr : "?", fn ? fn : "?", file ? file : "?", line);
  if (g_active) finish_violation("abort", m);
  --core_depth;
  abort();
} }
extern "C" {
void abort(void) {
  if (g_active) {
    ++core_depth;
    std::string m = "abort() was called";
    if (std::exception_ptr e = std::current_exception()) {
      try { std::rethrow_exception(e); } catch (const std::exception& x) { m += std::string(" on exception: ") + x.what(); } catch (...) {}
    }
    finish_violation("abort", m.c_str());
  }
  signal(SIGABRT, SIG_DFL);
  syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGABRT);
  _exit(98);
}

int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!intercept()) return real_pthread_create()(th, a, fn, arg);
  CoreGuard g;
  Thread* t = new_thread(self->pid, "pthread");
  t->cfn = fn;
  t->carg = arg;
  start_thread(t);
  *th = t->real;
  sched("pthread_create");
  return 0;
}
static Thread* by_handle(pthread_t th) {
  for (size_t i = g_threads->size(); i-- > 0;) if ((*g_threads)[i]->real == th) return (*g_threads)[i];
  return nullptr;
}
int pthread_join(pthread_t th, void** ret) {
  if (!intercept()) return real_pthread_join()(th, ret);
  Thread* t = by_handle(th);
  if (!t) return ESRCH;
  sim::join(t->tid);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!intercept()) return real_pthread_detach()(th);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!intercept()) return real_pthread_mutex_lock()(m);
  return mtx_lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!intercept()) return real_pthread_mutex_trylock()(m);
  return mtx_lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, true, -1);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!intercept()) return real_pthread_mutex_unlock()(m);
  return mtx_unlock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  return mtx_lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false, ts_ns(t) - g_wall_off);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  return mtx_lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false, ts_ns(t) - (c == CLOCK_REALTIME ? g_wall_off : 0));
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (g_active && self) { CoreGuard g; g_mtx->erase(m); }
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return mtx_lock(m, false, false, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return mtx_lock(m, false, true, -1); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!intercept()) return 0; return mtx_unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!intercept()) return 0;
  CoreGuard g;
  sched("rdlock");
  Mtx* px = &(*g_mtx)[m];
  block_on([px] { return px->owner == nullptr; }, -1, "rwlock");
  px->readers++;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!intercept()) return real_pthread_cond_wait()(c, m);
  return cv_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!intercept()) return real_pthread_cond_timedwait()(c, m, t);
  return cv_wait(c, m, ts_ns(t) - g_wall_off);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  return cv_wait(c, m, ts_ns(t) - (k == CLOCK_REALTIME ? g_wall_off : 0));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!intercept()) return real_pthread_cond_signal()(c);
  cv_wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!intercept()) return real_pthread_cond_broadcast()(c);
  cv_wake(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (g_active && self) { CoreGuard g; g_cv->erase(c); }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!intercept()) return real_pthread_once()(o, fn);
  int* st;
  {
    CoreGuard g;
    sched("once");
    st = &(*g_once)[o];
    if (*st == 0 && *o == 2) *st = 2;
    if (*st == 1) block_on([st] { return *st != 1; }, -1, "once");
    if (*st == 2) return 0;
    *st = 1;
  }
  try { fn(); } catch (...) { *st = 0; throw; }
  *st = 2;
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  if (*(char*)g) return 0;
  if (!intercept()) { if (((char*)g)[1]) return 0; ((char*)g)[1] = 1; return 1; }
  CoreGuard cg;
  sched("static guard");
  block_on([g] { return !((char*)g)[1] || *(char*)g; }, -1, "static initialisation");
  if (*(char*)g) return 0;
  ((char*)g)[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) { ((char*)g)[1] = 0; *(char*)g = 1; }
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }

int sched_yield(void) {
  if (!intercept()) return syscall(SYS_sched_yield);
  sched("yield");
  return 0;
}

// clocks
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!intercept()) return syscall(SYS_clock_gettime, c, t);
  int64_t n;
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: n = clock_read_wall(); break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: n = clock_read_mono() / 3; break;
    default: n = clock_read_mono(); break;
  }
  t->tv_sec = n / 1000000000LL;
  t->tv_nsec = n % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* t, void*) {
  if (!intercept()) return syscall(SYS_gettimeofday, t, nullptr);
  int64_t n = clock_read_wall();
  t->tv_sec = n / 1000000000LL;
  t->tv_usec = n % 1000000000LL / 1000;
  return 0;
}
time_t time(time_t* out) {
  time_t r;
  if (!intercept()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; }
  else r = clock_read_wall() / 1000000000LL;
  if (out) *out = r;
  return r;
}
clock_t clock(void) {
  if (!intercept()) return 0;
  return clock_read_mono() / 1000 / 3;   // CPU time runs slower than real time
}
static int do_sleep(int64_t ns, struct timespec* rem) {
  CoreGuard g;
  if (ns > 0 && chance(1, 12, "sleep interrupted")) {
    fault("sleep_EINTR");
    int64_t part = (int64_t)choose(1000) * (ns / 1000);
    sleep_ns(part);
    if (rem) { int64_t r = ns - part; rem->tv_sec = r / 1000000000LL; rem->tv_nsec = r % 1000000000LL; }
    errno = EINTR;
    return -1;
  }
  int64_t late = choose(4) == 3 ? (int64_t)choose(5000000) : 0;
  sleep_ns(ns + late);
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  if (!intercept()) return syscall(SYS_nanosleep, r, rem);
  return do_sleep(ts_ns(r), rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (!intercept()) return syscall(SYS_clock_nanosleep, c, flags, r, rem);
  int64_t ns = ts_ns(r);
  if (flags & TIMER_ABSTIME) ns -= g_now + (c == CLOCK_REALTIME ? g_wall_off : 0);
  int x = do_sleep(ns, rem);
  return x ? EINTR : 0;
}
int usleep(useconds_t u) {
  if (!intercept()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, 0); }
  return do_sleep((int64_t)u * 1000, nullptr);
}
unsigned sleep(unsigned s) {
  if (!intercept()) { struct timespec t = {(time_t)s, 0}; return syscall(SYS_nanosleep, &t, 0); }
  struct timespec rem = {0, 0};
  return do_sleep((int64_t)s * 1000000000LL, &rem) ? (unsigned)((ts_ns(&rem) + 999999999) / 1000000000LL) : 0;
}

// ------------------------------------------------------------------ instrumentation hooks
static inline void hook() { if (__builtin_expect(--g_gap <= 0, 0)) hook_slow(); }
#define HM(n, k) void n(void* p) { mem_check(p, k); hook(); }
#define HW(n) HM(n##1, 1) HM(n##2, 2) HM(n##4, 4) HM(n##8, 8) HM(n##16, 16)
#define HU(n) HM(n##2, 2) HM(n##4, 4) HM(n##8, 8) HM(n##16, 16)
HW(__tsan_read) HW(__tsan_write) HU(__tsan_unaligned_read) HU(__tsan_unaligned_write) HW(__tsan_volatile_read) HW(__tsan_volatile_write)
#define H(n) void n(void*) { hook(); }
H(__tsan_func_entry) H(__tsan_vptr_read)
void __tsan_vptr_update(void*, void*) { hook(); }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_read_range(void* p, unsigned long n) { if (n) mem_check(p, n); hook(); }
void __tsan_write_range(void* p, unsigned long n) { if (n) mem_check(p, n); hook(); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
static void atomic_point() { if (intercept() && !self->nopre) sched("atomic"); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomic_point(); mem_check((void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomic_point(); mem_check((void*)a, sizeof(T)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

}  // extern "C"

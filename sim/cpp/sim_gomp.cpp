// Simulated OpenMP runtime (libgomp ABI): teams are simulated threads, every chunk hand-out,
// critical section and barrier is a scheduling decision.
#include "sim_internal.hpp"
#include <string.h>
#include <algorithm>

namespace sim {
struct Loop { bool init = false; long start = 0, end = 0, incr = 1, chunk = 1, next = 0; int kind = 0; bool single_taken = false; int left = 0; long sec = 0; void* copy = nullptr; bool copy_ready = false; };
struct Team {
  int n = 1;
  int arrived = 0;
  uint64_t gen = 0;
  int done = 0;
  std::map<int, Loop> loops;
};
static Team* team() { return self->teams.empty() ? nullptr : (Team*)self->teams.back().team; }
static int tnum() { return self->teams.empty() ? 0 : self->teams.back().num; }
static std::map<const void*, Thread*>* g_crit;
static int g_num_threads_var = 0;
static void point(const char* w) { if (!self->nopre) sched(w); }

static int max_threads() {
  if (!g_active || !self) return 1;
  if (g_num_threads_var > 0) return g_num_threads_var;
  return config().omp_max > 0 ? config().omp_max : 1;
}

static void barrier() {
  Team* t = team();
  if (!t || t->n == 1) return;
  CoreGuard g;
  uint64_t gen = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; point("barrier"); return; }
  block_on([t, gen] { return t->gen != gen; }, -1, "barrier");
}

static void parallel(void (*fn)(void*), void* data, unsigned req, const std::function<void(Team*)>& setup) {
  CoreGuard* g = new CoreGuard();
  int mx = max_threads();
  int n = req ? (int)req : mx;
  if (!self->teams.empty()) n = 1;                 // nested regions are serialised, as by default
  else if (config().omp_max > 0) {
    if (n > config().omp_max && !req) n = config().omp_max;
    if (config().omp_dynamic && n > 1) { int m = n; n = 1 + (int)choose((uint32_t)n, "team size"); if (n != m) fault("team_resized"); }
  } else n = 1;
  if (n > 32) n = 32;
  Team* t = new Team();
  t->n = n;
  if (setup) setup(t);
  std::vector<int> tids;
  for (int i = 1; i < n; i++) {
    Thread* th = new_thread(self->pid, "omp");
    th->teams.push_back(TeamRef{t, i});
    th->ws.push_back(0);
    th->fn = [fn, data, t] { fn(data); CoreGuard g2; t->done++; };
    start_thread(th);
  }
  self->teams.push_back(TeamRef{t, 0});
  self->ws.push_back(0);
  delete g;
  if (n > 1) { nontrivial(); static uint64_t regions = 0; if (regions++) probe("several parallel regions"); point("parallel"); }
  try { fn(data); } catch (...) { finish_violation("omp-exception", "an exception left an OpenMP region"); }
  CoreGuard g2;
  if (n > 1) block_on([t, n] { return t->done == n - 1; }, -1, "end of parallel region");
  self->teams.pop_back();
  self->ws.pop_back();
  delete t;
}
static void init_loop(Loop& l, long s, long e, long i, long c, int kind) {
  if (l.init) return;
  l.init = true; l.start = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1; l.next = s; l.kind = kind;
}
static bool next_chunk(Loop& l, long* is, long* ie) {
  CoreGuard g;
  point("chunk");
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
  long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
  long c = l.chunk;
  if (l.kind == 1) { Team* t = team(); long q = (left + (t ? t->n : 1) - 1) / (t ? t->n : 1); c = std::max(c, q); }
  c = std::min(c, left);
  *is = l.next;
  *ie = l.next + c * l.incr;
  l.next = *ie;
  if (l.incr > 0 ? *ie > l.end : *ie < l.end) *ie = l.end;
  return true;
}
static std::map<Thread*, Loop>* g_solo;
static Loop& cur_loop(bool advance) {
  CoreGuard g;
  Team* t = team();
  if (!t) {
    if (!g_solo) g_solo = new std::map<Thread*, Loop>();
    if (advance) (*g_solo)[self] = Loop();
    return (*g_solo)[self];
  }
  if (advance) self->ws.back()++;
  return t->loops[self->ws.back()];
}
static void crit_enter(const void* key) {
  CoreGuard g;
  if (!g_crit) g_crit = new std::map<const void*, Thread*>();
  point("critical");
  Thread** o = &(*g_crit)[key];
  if (*o == self) finish_violation("deadlock", "a critical section was entered twice by one thread");
  block_on([o] { return *o == nullptr; }, -1, "critical section");
  *o = self;
}
static void crit_leave(const void* key) { CoreGuard g; (*g_crit)[key] = nullptr; point("critical end"); }
}  // namespace sim
using namespace sim;

static int k_default, k_atomic;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { if (!g_active || !self) { fn(d); return; } parallel(fn, d, n, nullptr); }
#define PLOOP(name, kind) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    parallel(fn, d, n, [=](Team* t) { init_loop(t->loops[0], s, e, i, c, kind); }); }
PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1) PLOOP(static, 1)
#define PLOOPR(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
    parallel(fn, d, n, [=](Team* t) { init_loop(t->loops[0], s, e, i, 1, 0); }); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { Loop& l = cur_loop(true); init_loop(l, s, e, i, c, kind); return next_chunk(l, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(cur_loop(false), is, ie); } \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { Loop& l = cur_loop(true); init_loop(l, s, e, i, c, kind); return next_chunk(l, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return next_chunk(cur_loop(false), (long*)is, (long*)ie); }
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1) LOOP(static, 1)
#define LOOPR(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { Loop& l = cur_loop(true); init_loop(l, s, e, i, 1, 0); return next_chunk(l, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return next_chunk(cur_loop(false), is, ie); } \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { Loop& l = cur_loop(true); init_loop(l, s, e, i, 1, 0); return next_chunk(l, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return next_chunk(cur_loop(false), (long*)is, (long*)ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { if (g_active && self) barrier(); }
void GOMP_critical_start(void) { if (g_active && self) crit_enter(&k_default); }
void GOMP_critical_end(void) { if (g_active && self) crit_leave(&k_default); }
void GOMP_critical_name_start(void** p) { if (g_active && self) crit_enter(p); }
void GOMP_critical_name_end(void** p) { if (g_active && self) crit_leave(p); }
void GOMP_atomic_start(void) { if (g_active && self) crit_enter(&k_atomic); }
void GOMP_atomic_end(void) { if (g_active && self) crit_leave(&k_atomic); }
bool GOMP_single_start(void) {
  if (!g_active || !self || !team()) return true;
  Loop& l = cur_loop(true);
  point("single");
  if (l.single_taken) return false;
  l.single_taken = true;
  return true;
}
void* GOMP_single_copy_start(void) {
  if (!team()) return nullptr;
  Loop* l = &cur_loop(true);
  if (!l->single_taken) { l->single_taken = true; return nullptr; }
  block_on([l] { return l->copy_ready; }, -1, "single copy");
  return l->copy;
}
void GOMP_single_copy_end(void* d) { Team* t = team(); if (!t) return; Loop& l = t->loops[self->ws.back()]; l.copy = d; l.copy_ready = true; }
unsigned GOMP_sections_start(unsigned c) { Loop& l = cur_loop(true); init_loop(l, 1, (long)c + 1, 1, 1, 0); long a, b; return next_chunk(l, &a, &b) ? a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return next_chunk(cur_loop(false), &a, &b) ? a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { parallel(fn, d, n, [=](Team* t) { init_loop(t->loops[0], 1, (long)c + 1, 1, 1, 0); }); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { if (g_active && self) point("taskyield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) {
    std::vector<char> buf(sz + al);
    char* p = (char*)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, data);
    fn(p);
  } else fn(data);
}
int omp_get_thread_num(void) { return g_active && self ? tnum() : 0; }
int omp_get_num_threads(void) { Team* t = g_active && self ? team() : nullptr; return t ? t->n : 1; }
int omp_get_max_threads(void) { return max_threads(); }
int omp_get_num_procs(void) { return config().omp_max > 0 ? config().omp_max : 1; }
int omp_get_thread_limit(void) { return 32; }
int omp_in_parallel(void) { Team* t = g_active && self ? team() : nullptr; return t && t->n > 1; }
int omp_get_dynamic(void) { return config().omp_dynamic; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { g_num_threads_var = n; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return g_active && self ? (int)self->teams.size() : 0; }
double omp_get_wtime(void) { return clock_read_mono() * 1e-9; }
struct SimOmpLock { Thread* owner; };
void omp_init_lock(void* l) { *(int*)l = 0; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { if (g_active && self) crit_enter(l); }
void omp_unset_lock(void* l) { if (g_active && self) crit_leave(l); }
int omp_test_lock(void* l) { CoreGuard g; if (!g_crit) g_crit = new std::map<const void*, Thread*>(); Thread*& o = (*g_crit)[l]; if (o) return 0; o = self; return 1; }
}

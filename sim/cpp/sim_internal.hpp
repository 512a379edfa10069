#pragma once
#include "sim.hpp"
#include <pthread.h>
#include <stdint.h>

namespace sim {

struct TeamRef { void* team = nullptr; int num = 0; };

struct Thread {
  int tid = 0, pid = 0;
  int word = 0;                       // futex: 1 = may run
  enum State { RUNNABLE, BLOCKED, DONE, DEAD } state = RUNNABLE;
  std::function<bool()> pred;
  const char* what = "";
  int64_t deadline = -1;
  int nopre = 0;
  pthread_t real = 0;
  std::function<void()> fn;
  void* (*cfn)(void*) = nullptr;
  void* carg = nullptr;
  void* ret = nullptr;
  bool detached = false;
  std::string name;
  uint32_t prio = 0;
  std::vector<TeamRef> teams;         // OpenMP team stack
  std::vector<int> ws;                // work-share counters, parallel to teams
  bool alloc_armed = false;
};

extern bool g_active;
extern __thread Thread* self;
extern __thread int core_depth;
struct CoreGuard { CoreGuard() { ++core_depth; } ~CoreGuard() { --core_depth; } };
inline bool intercept() { return g_active && self && core_depth == 0; }

extern int64_t g_now, g_wall_off;
extern std::vector<Thread*>* g_threads;

void block_on(const std::function<bool()>& pred, int64_t deadline, const char* what);
void sched(const char* why);
Thread* new_thread(int pid, const char* name);
void start_thread(Thread* t);
[[noreturn]] void finish_violation(const char* cls, const char* msg);
void fs_process_gone(int pid);
void fs_init();
int64_t clock_read_mono();
int64_t clock_read_wall();
void alloc_fault_mark();

template <typename F> F real_fn(const char* name);
}  // namespace sim

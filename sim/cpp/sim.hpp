// Deterministic simulator core: public interface used by the property harnesses.
// Everything random is drawn with choose(): one seed (or one recorded choice list) is one execution.
#pragma once
#include <sys/types.h>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------- choices ----------
uint32_t choose(uint32_t n, const char* label = nullptr);              // uniform in [0,n); 0 = simplest
uint32_t choose_gen(uint32_t n, uint32_t genval);                      // record a value produced by the generator
bool chance(uint32_t num, uint32_t den, const char* label = nullptr);  // false is simplest
int64_t range(int64_t lo, int64_t hi, const char* label = nullptr);    // lo is simplest
uint64_t gen_rand();                                                   // generator only (not recorded!)
bool generating();
template <typename T> const T& pick(const std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }

// ---------- log, results ----------
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* kind);              // a fault that really fired
void probe(const char* name);              // a rare condition that was reached
void nontrivial();                         // mark this run as non trivial
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

// ---------- threads, processes ----------
struct Config {
  bool preempt = true;        // preempt at instrumented memory accesses
  uint64_t step_cap = 30000000;
  int omp_max = 0;            // >0: simulated OpenMP runtime with up to omp_max threads
  bool omp_dynamic = false;   // team size may differ from region to region
  bool clock_ticks = true;    // reading a clock may advance it
  bool wall_jumps = false;    // wall clock may jump at reads
  int64_t max_tick_ns = 1000000;
  bool spurious = false;      // spurious condition wake-ups
  bool stalls = true;         // a timer may fire while a thread that could run is stalled
};
Config& config();
int spawn(std::function<void()> fn, const char* name = nullptr);       // thread of the current process
int spawn_process(std::function<void()> fn, const char* name = nullptr);  // first thread of a new simulated process; returns pid
void join(int tid);
enum Exit { EXIT_NORMAL = 0, EXIT_KILLED = 1 };
Exit wait_process(int pid);                // waits until all threads of pid are done or it was killed
Exit run_process(std::function<void()> fn, const char* name = nullptr);
void kill_process(int pid);                // the caller must not belong to pid
[[noreturn]] void kill_self();             // kill the current thread's process: never returns
extern bool assert_kills;                  // a failed assertion ends the simulated process of the thread instead of the run
extern char last_assert[256];
void check_range(const void* p, size_t n); // a violation when the range leaves its heap block
int current_tid();
int current_pid();
void sched_point(const char* what = nullptr);
void no_preempt(bool on);                  // nestable, per thread
bool deadlocked_only_waiters();
void block_until(const std::function<bool()>& pred, int64_t deadline_ns = -1, const char* what = "wait");

struct NoPreempt { NoPreempt() { no_preempt(true); } ~NoPreempt() { no_preempt(false); } };

// ---------- time ----------
int64_t mono_ns();                         // simulated monotonic clock, no side effect
int64_t wall_ns();
void set_wall_offset(int64_t ns);
void advance(int64_t ns);
void sleep_ns(int64_t ns);
extern bool clock_frozen;                  // clock reads do not advance
uint64_t clock_reads();
extern std::vector<int64_t>* wall_log;     // when set: every value of the wall clock that was read

// ---------- simulated file system ----------
struct FsFaults {                          // rates: 1/den per operation, 0 = off
  uint32_t open_err = 0, write_err = 0, short_write = 0, read_err = 0, short_read = 0, close_err = 0, eintr = 0,
           mkdir_err = 0, stat_err = 0, crash = 0, unlink_err = 0, lost_close = 0, fsync_err = 0, rename_err = 0,
           seek_err = 0;
  int64_t capacity = -1;                   // bytes; <0 unlimited
};
FsFaults& fs_faults();
void fs_enable_faults(int pid, bool on);   // faults only hit threads of enabled processes
bool fs_fault_fired(int pid);              // an error/short/loss fault was delivered to pid since last clear
void fs_clear_fired(int pid);
bool fs_exists(const std::string& p);
bool fs_isdir(const std::string& p);
bool fs_read(const std::string& p, std::string* out);
void fs_write(const std::string& p, const std::string& data);
bool fs_unlink(const std::string& p);
bool fs_mkdir(const std::string& p);
std::vector<std::string> fs_list();        // all paths, sorted
std::vector<std::string> fs_ls(const std::string& dir);
void fs_set_mode(const std::string& p, bool writable);
void fs_power_loss();                      // un-synced data may be lost or torn
int fs_open_fds(int pid);
uint64_t fs_hash();
extern std::function<ssize_t(char*, size_t)> fs_stdin;  // reads of descriptor 0 (unset: the real one)
extern std::function<void(const char* op, const std::string& path)> fs_hook;  // called before every target operation

// ---------- allocation faults ----------
void alloc_faults(uint32_t den);           // 1/den per allocation of target code, 0 = off
bool alloc_fault_fired();
void alloc_fault_clear();
void alloc_arm(bool on);                   // only allocations between arm(true)/arm(false) of this thread can fail
int64_t live_allocs();

// ---------- scenario registry ----------
typedef void (*ScenarioFn)();
struct Reg { Reg(const char* name, ScenarioFn fn); };
#define SCENARIO(name) static void scenario_##name(); static ::sim::Reg reg_##name(#name, scenario_##name); static void scenario_##name()

}  // namespace sim

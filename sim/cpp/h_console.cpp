// C36, C37: console helpers, time-stamp strings and sleeping.
#include "sim.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <cstring>
#include <ctime>
#include <deque>
#include <iostream>
#include <termios.h>
using namespace sim;

// ------------------------------------------------------------------ the simulated terminal
struct Tty {
  bool is_tty = true;
  termios attr;
  std::deque<uint8_t> pending;       // typed, not read yet
  bool eof = false;
  uint32_t eintr = 0, eio = 0, get_err = 0;
  bool split = false;
  uint64_t errors = 0, reads = 0;
  bool ready() const {
    if (eof) return true;
    if (!is_tty || !(attr.c_lflag & ICANON)) return !pending.empty();
    for (uint8_t b : pending) if (b == '\n') return true;
    return false;
  }
};
static Tty* tty = nullptr;
static ssize_t tty_read(char* buf, size_t n) {
  tty->reads++;
  sched_point("read terminal");
  if (tty->eintr && chance(1, tty->eintr, "read EINTR")) { fault("read_EINTR"); errno = EINTR; return -1; }
  if (tty->eio && chance(1, tty->eio, "read error")) { fault("read_error"); tty->errors++; errno = EIO; return -1; }
  block_until([] { return tty->ready(); }, -1, "key press");
  NoPreempt np;
  size_t k = 0, max = n;
  if (tty->split && n > 1 && choose(2)) { max = 1 + choose(3); }
  while (k < max && !tty->pending.empty()) {
    uint8_t b = tty->pending.front();
    tty->pending.pop_front();
    buf[k++] = (char)b;
    if (b == '\n' && tty->is_tty && (tty->attr.c_lflag & ICANON)) break;
  }
  if (k == max && k < n) fault("split_read");
  return (ssize_t)k;
}
extern "C" {
int tcgetattr(int fd, struct termios* t) {
  if (!tty || fd != 0) { errno = ENOTTY; return -1; }
  if (!tty->is_tty) { errno = ENOTTY; return -1; }
  if (tty->get_err && chance(1, tty->get_err, "attributes unreadable")) { fault("tcgetattr_error"); errno = EIO; return -1; }
  *t = tty->attr;
  return 0;
}
int tcsetattr(int fd, int, const struct termios* t) {
  if (!tty || fd != 0 || !tty->is_tty) { errno = ENOTTY; return -1; }
  tty->attr = *t;
  return 0;
}
}

static bool same_attr(const termios& a, const termios& b) {
  return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc);
}

static void keyboard() {
  std::ios_base::sync_with_stdio(false);   // reads of std::cin become reads of descriptor 0
  Tty t;
  memset(&t.attr, 0, sizeof t.attr);
  tty = &t;
  fs_stdin = tty_read;
  t.attr.c_lflag = ICANON | ECHO | ISIG;
  t.attr.c_iflag = ICRNL;
  t.attr.c_cc[VMIN] = 1;
  t.is_tty = choose(6) != 5;
  t.split = choose(2);
  switch (choose(5, "fault family")) {
    case 1: t.eintr = 3; break;
    case 2: t.eio = 5; break;
    case 3: t.get_err = 3; break;
    case 4: t.eintr = 4; t.get_err = 6; break;
    default: break;
  }
  std::deque<uint8_t> model;               // typed and not yet returned
  uint32_t ops = 1 + choose(8, "operations");
  std::vector<int> tids;
  static const uint8_t keys[] = {'a', 'q', ' ', 0xff, 0, 4, 27, 0x80, '\r', '\n'};
  for (uint32_t i = 0; i < ops; i++) {
    if (choose(5) == 4) { t.attr.c_lflag ^= choose(2) ? ICANON : ECHO; event("mode changed"); }
    for (int x : tids) join(x);                // one person types
    tids.clear();
    bool line = choose(3) == 2;
    if (!t.eof) {
      std::vector<uint8_t> typed;
      uint32_t n = model.empty() ? 1 + choose(3) : choose(3);
      for (uint32_t k = 0; k < n; k++) typed.push_back(keys[choose(line ? 9 : 10)]);
      if (line) typed.push_back('\n');
      bool ends = choose(8) == 7, late = choose(2);
      for (uint8_t b : typed) model.push_back(b);
      auto type = [typed, ends, late] {
        for (uint8_t b : typed) { if (late) sleep_ns((int64_t)choose(3) * 1000000); tty->pending.push_back(b); }
        if (ends) { fault("end_of_input"); tty->eof = true; }
      };
      if (late) tids.push_back(spawn(type, "typist")); else type();
    }
    termios before = t.attr;
    uint64_t errs = t.errors;
    auto hexed = [](const std::string& s) { std::string r; char b[4]; for (uint8_t c : s) { snprintf(b, 4, "%02x ", c); r += b; } return r; };
    if (!line) {
      // attributes that cannot be read leave the terminal waiting for a whole line: type it
      if (t.get_err && !t.eof) { model.push_back('\n'); tids.push_back(spawn([] { sleep_ns(50000000); tty->pending.push_back('\n'); }, "typist")); }
      int c = arc_helpers::GetChar();
      event("GetChar -> %d", c);
      nontrivial();
      SIM_CHECK(same_attr(t.attr, before), "terminal-mode", "GetChar left the terminal with c_lflag %x instead of %x", t.attr.c_lflag, before.c_lflag);
      SIM_CHECK(std::cin.good(), "stream-state", "std::cin is left in a failed state by GetChar");
      if (t.errors != errs && c == EOF) continue;
      if (c == EOF) SIM_CHECK(t.eof && model.empty(), "false-eof", "GetChar returned end of file although %zu keys are left", model.size());
      else {
        SIM_CHECK(!model.empty(), "invented-key", "GetChar returned %d although no key is left", c);
        SIM_CHECK(c == model.front(), "wrong-key", "GetChar returned %d instead of %d", c, model.front());
        model.pop_front();
      }
    } else {
      std::string s = arc_helpers::WaitForInput(choose(2) ? "prompt " : "Press ENTER to continue\n");
      event("WaitForInput -> %s", hexed(s).c_str());
      nontrivial();
      SIM_CHECK(same_attr(t.attr, before), "terminal-mode", "WaitForInput changed the terminal mode");
      std::string want;
      for (uint8_t b : model) { if (b == '\n') break; want += (char)b; }
      bool newline = want.size() < model.size();
      if (t.errors != errs && s != want) {
        SIM_CHECK(want.compare(0, s.size(), s) == 0, "wrong-line", "WaitForInput returned [%s], typed was [%s]", hexed(s).c_str(), hexed(want).c_str());
        newline = false;
      } else SIM_CHECK(s == want, "wrong-line", "WaitForInput returned [%s], typed was [%s]", hexed(s).c_str(), hexed(want).c_str());
      // an error right at the newline cannot be told from an empty rest: the stream says whether it was consumed
      if (t.errors != errs && !std::cin.good()) newline = false;
      model.erase(model.begin(), model.begin() + s.size() + (newline ? 1 : 0));
      if (!std::cin.good()) { SIM_CHECK(t.errors != errs || t.eof, "stream-state", "std::cin failed after a whole line"); std::cin.clear(); }
    }
  }
  for (int x : tids) join(x);
  fs_stdin = nullptr;
}

static void debugger() {
  uint32_t ops = 1 + choose(12, "checks");
  bool many = choose(6) == 5;
  if (many) ops = 300;
  FsFaults& f = fs_faults();
  uint32_t fam = choose(5, "fault family");
  fs_enable_faults(current_pid(), true);
  int base = fs_open_fds(current_pid());
  static const char* names[] = {"planner", "a b", "python3 x.py", "TracerPi", ":(", "0123456789abcde"};
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t tracer = choose(3) ? 0 : (choose(2) ? 1 + choose(9) : 1 + choose(4000000));
    bool exists = choose(12) != 11, has = choose(12) != 11;
    if (!many || i == 0) {
      std::string s = std::string("Name:\t") + names[choose(6)] + "\nUmask:\t0022\nState:\tR (running)\nTgid:\t4321\nNgid:\t0\nPid:\t4321\nPPid:\t1\n";
      if (has) s += "TracerPid:\t" + std::to_string(tracer) + "\n";
      s += "Uid:\t1000\t1000\t1000\t1000\nGid:\t1000\t1000\t1000\t1000\nFDSize:\t256\nGroups:\t4 24 27 30 46 110\n";
      uint32_t pad = choose(2) ? 700 : choose(3);
      for (uint32_t k = 0; k < pad; k++) s += k % 40 == 39 ? "\n" : "x";
      s += "\nVmPeak:\t   10000 kB\nThreads:\t1\n";
      if (exists) fs_write("/proc/self/status", s);
      else { fs_write("/proc/self/status", ""); fs_unlink("/proc/self/status"); }
      if (many) { probe("many_checks"); }
    }
    static bool want0;
    bool want = exists && has && tracer;
    if (many) { if (i == 0) want0 = want; want = want0; }
    f = FsFaults();
    switch (fam) {
      case 1: f.short_read = 1; break;
      case 2: f.eintr = 3; break;
      case 3: f.open_err = 3; f.read_err = 3; f.short_read = 2; break;
      case 4: f.short_read = 2; f.eintr = 4; break;
      default: break;
    }
    fs_clear_fired(current_pid());
    // open() itself is not interrupted: that cannot happen for a proc file
    bool got = arc_helpers::IsDebuggerPresent();
    bool err = fs_fault_fired(current_pid());
    f = FsFaults();
    if (!many || i + 1 == ops) event("check %u: %d (tracer %u, faults %d)", i, (int)got, tracer, (int)err);
    int fds = fs_open_fds(current_pid());
    SIM_CHECK(fds == base, "descriptor-leak", "%d descriptors are left open after %u checks", fds - base, i + 1);
    if (err) SIM_CHECK(!got || want, "wrong-answer", "a debugger was reported although the tracer is 0");
    else SIM_CHECK(got == want, "wrong-answer", "IsDebuggerPresent is %d although the tracer is %u", (int)got, exists && has ? tracer : 0);
    nontrivial();
  }
}
SCENARIO(C36) {
  config().stalls = false;
  if (choose(3)) keyboard(); else debugger();
}

// ------------------------------------------------------------------ C37
SCENARIO(C37) {
  config().preempt = false;
  config().stalls = false;
  static const char* zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+1330>-13:30", "<+0545>-5:45", "CET-1CEST,M3.5.0,M10.5.0/3"};
  setenv("TZ", zones[choose(5, "zone")], 1);
  config().wall_jumps = choose(3) == 2;
  static const int64_t ticks[] = {1000, 1000000, 400000000, 1500000000};
  config().max_tick_ns = ticks[choose(4)];
  // ordinary moments and moments next to the ends of seconds, days, months, years and daylight saving
  static const int64_t marks[] = {1700000000, 1704067200, 1709251200, 951782400, 1710054000, 1730613600, 1711846800, 1729994400, 1719792000, 2147483648, 1735689600 - 18000, 86400};
  std::vector<int64_t> reads;
  wall_log = &reads;
  uint32_t ops = 1 + choose(5, "operations");
  for (uint32_t i = 0; i < ops; i++) {
    if (choose(4)) {
      int64_t at = marks[choose(12)] * 1000000000LL;
      if (choose(4) == 3) at += (int64_t)choose(31536000) * 1000000000LL;
      switch (choose(4)) {
        case 0: at -= choose(200); break;
        case 1: at += (int64_t)choose(1000) * 1000000; break;
        case 2: at -= 1 + choose(3000000); break;
        default: at += (int64_t)choose(1000000000); break;
      }
      set_wall_offset(at - mono_ns());
      fault("clock_set");
    }
    uint32_t op = choose(3, "operation");
    if (op < 2) {
      reads.clear();
      std::string s = op ? arc_helpers::GetCurrentTimeAsStringWithMilliseconds() : arc_helpers::GetCurrentTimeAsString();
      event("%s", s.c_str());
      nontrivial();
      bool ok = false;
      std::string could;
      bool roll = false;
      for (size_t k = 0; k < reads.size(); k++) {
        time_t sec = reads[k] / 1000000000LL;
        if (k && sec != reads[k - 1] / 1000000000LL) roll = true;
        struct tm tm;
        localtime_r(&sec, &tm);
        char b[80];
        strftime(b, sizeof b, "%Y-%m-%d__%H-%M-%S", &tm);
        std::string w = b;
        if (op) {
          int ms = (int)(reads[k] / 1000000 % 1000);
          could += w + "-" + std::to_string(ms) + " ";
          if (s.size() > w.size() + 1 && s.compare(0, w.size() + 1, w + "-") == 0) {
            std::string rest = s.substr(w.size() + 1);
            if (rest.find_first_not_of("0123456789") == std::string::npos && rest.size() <= 3 && atoi(rest.c_str()) == ms) ok = true;
          }
        } else { could += w + " "; if (s == w) ok = true; }
      }
      if (roll) probe("roll_over_inside_the_call");
      SIM_CHECK(!reads.empty(), "no-clock", "the time stamp %s was made without reading the clock", s.c_str());
      SIM_CHECK(ok, "wrong-instant", "the time stamp is %s but the clock read %s", s.c_str(), could.c_str());
    } else {
      static const double lens[] = {0.001, 0.0, -1.0, 1e-9, 2.5e-7, 0.25, 1.0, 3.75, 60.5, 86400.0, -1e-9, 0.333333333};
      double len = lens[choose(12)];
      int64_t t0 = mono_ns();
      arc_helpers::Sleep(len);
      int64_t took = mono_ns() - t0;
      event("slept %lld ns of %g s", (long long)took, len);
      if (len > 0) nontrivial();
      SIM_CHECK(took + 1 >= (int64_t)(len * 1e9), "short-sleep", "a sleep of %.10g s lasted %.10g s", len, took * 1e-9);
    }
  }
  wall_log = nullptr;
}

// C04, C05: stopwatches and the profiler under simulated clocks and disks.
#include "sim.hpp"
#include <arc_utilities/timing.hpp>
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
using namespace sim;
using namespace arc_utilities;

struct Mark { int64_t lo, hi; };  // the call that started the timer ran in this interval
static int64_t g_b;
template <typename F> static auto timed(Mark* m, F f) -> decltype(f()) {
  m->lo = mono_ns();
  struct E { Mark* m; ~E() { m->hi = mono_ns(); } } e{m};
  return f();
}
static void check_elapsed(const char* cls, double got, const Mark& start, const Mark& read) {
  double lo = (read.lo - start.hi) * 1e-9, hi = (read.hi - start.lo) * 1e-9, tol = 1e-12 + hi * 1e-13;
  SIM_CHECK(got >= lo - tol && got <= hi + tol, cls, "a timer started at %lld..%lld and read at %lld..%lld ns reported %.9f s instead of %.9f..%.9f s",
            (long long)start.lo, (long long)start.hi, (long long)read.lo, (long long)read.hi, got, lo, hi);
}
// a sink that keeps nothing: a growing buffer would allocate (and draw allocation faults) depending on earlier runs
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } };
static void quiet() { static NullBuf* o = new NullBuf; std::cout.rdbuf(o); }
static void jump_wall() {
  int64_t d = ((int64_t)choose(2000001) - 1000000) * 3000000LL;
  set_wall_offset(wall_ns() - mono_ns() + d);
  if (wall_ns() < 1000000000LL) set_wall_offset(1600000000LL * 1000000000LL);
  fault("wall_clock_jump");
}
static void pass_time() {
  switch (choose(5)) {
    case 0: break;
    case 1: advance(choose(1000)); break;
    case 2: advance((int64_t)choose(1000000) * 1000); break;
    case 3: advance((int64_t)choose(1000) * 1000000000LL); break;
    default: advance((int64_t)choose(30) * 86400 * 1000000000LL + choose(1000000000)); break;
  }
}
static const std::vector<std::string> NAMES = {"alpha", "beta", "g", "delta task", "a much longer timer name", "100%s"};

SCENARIO(C04) {
  quiet();
  config().max_tick_ns = 3000000;
  config().wall_jumps = choose(2);
  struct SW { std::unique_ptr<Stopwatch> w; Mark start; };
  std::vector<SW> ws;
  bool global_used = false;
  Mark gstart{};
  struct T { bool started = false; Mark start; bool has_data = false; };
  std::map<std::string, T> timers;
  int n = 3 + choose(25, "operations");
  nontrivial();
  for (int i = 0; i < n; i++) {
    pass_time();
    if (choose(4) == 3) jump_wall();
    Mark m;
    uint32_t op = choose(13, "op");
    std::string nm = NAMES[choose(3)];
    T& t = timers[nm];
    event("op %u %s", op, nm.c_str());
    switch (op) {
      case 0: case 1: {
        SW s;
        timed(&s.start, [&] { s.w.reset(new Stopwatch()); });
        ws.push_back(std::move(s));
        break;
      }
      case 2: case 3: case 4: {
        if (ws.empty()) break;
        SW& s = ws[choose((uint32_t)ws.size())];
        bool reset = op == 3;
        double d = timed(&m, [&] { return reset ? (*s.w)(RESET) : choose(2) ? (*s.w)(READ) : (*s.w)(); });
        if (reset) s.start = m;  // the value returned by the resetting call itself is not constrained
        else check_elapsed("stopwatch-wrong", d, s.start, m);
        break;
      }
      case 5: case 6: {
        bool reset = op == 6;
        double d = timed(&m, [&] { return reset ? GlobalStopwatch(RESET) : GlobalStopwatch(); });
        if (!global_used) {
          // the first use starts it
          gstart = m;
          global_used = true;
          SIM_CHECK(d >= 0 && d <= (m.hi - m.lo) * 1e-9 + 1e-12, "global-stopwatch-wrong", "the first reading was %.9f s", d);
        } else if (!reset) check_elapsed("global-stopwatch-wrong", d, gstart, m);
        if (reset) gstart = m;
        break;
      }
      case 7: case 8:
        timed(&m, [&] { PROFILE_START(nm); });
        t.started = true;
        t.start = m;
        break;
      case 9: {
        if (!t.started) break;
        double d = timed(&m, [&] { return PROFILE_RECORD(nm); });
        check_elapsed("profiler-time-wrong", d, t.start, m);
        t.has_data = true;
        std::vector<double> v = Profiler::getData(nm);
        SIM_CHECK(!v.empty() && v.back() == d, "profiler-sample-differs", "record() returned %.9f but stored something else", d);
        break;
      }
      case 10: {
        double d = timed(&m, [&] { return PROFILE_RECORD_DOUBLE(nm, 1.5); });
        if (t.started) check_elapsed("profiler-time-wrong", d, t.start, m);
        break;
      }
      case 11: {
        uint32_t k = choose(4);
        if (k == 0 && t.has_data && t.started) { timed(&m, [&] { PROFILE_RESET(nm); }); t.start = m; t.has_data = true; }
        else if (k == 1) { PROFILE_REINITIALIZE(choose(3), choose(5)); for (auto& x : timers) x.second.has_data = false; }
        else if (k == 2) { std::vector<std::string> g = {nm}; PROFILE_PRINT_SUMMARY_FOR_GROUP(g); }
        else Profiler::addData("other", 1.0);
        break;
      }
      default: {
        std::vector<std::string> g = {nm, "x"};
        PROFILE_WRITE_SUMMARY_FOR_GROUP("rep.txt", g);
        break;
      }
    }
  }
}

// ------------------------------------------------------------------ C05
static std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> r;
  std::string l;
  std::istringstream is(s);
  while (std::getline(is, l)) r.push_back(l);
  return r;
}
static std::vector<double> numbers(const std::string& s) {
  std::istringstream is(s);
  std::vector<double> r;
  std::string w;
  while (is >> w) r.push_back(strtod(w.c_str(), nullptr));
  return r;
}
static bool close_to(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 2e-6 + 1e-9 * std::fabs(b); }
// rows of the report that carry this name
static std::vector<std::vector<double>> rows(const std::string& rep, const std::string& name) {
  std::vector<std::vector<double>> r;
  for (auto& l : lines_of(rep)) {
    if (l.compare(0, name.size(), name) != 0) continue;
    if (l.size() <= name.size() || l[name.size()] != ' ') continue;
    std::string rest = l.substr(name.size());
    if (rest.find_first_not_of(" 0123456789.+-eEnainf") != std::string::npos) continue;
    std::vector<double> v = numbers(rest);
    if (!v.empty()) r.push_back(v);
  }
  return r;
}
SCENARIO(C05) {
  quiet();
  nontrivial();
  config().wall_jumps = choose(2);
  std::map<std::string, std::vector<double>> data;
  std::map<std::string, std::vector<std::pair<double, double>>> dbl;
  std::set<std::string> started, dbl_reset;
  int n = 3 + choose(25, "operations");
  bool separate = choose(4) != 0;  // most runs do not use one name for both kinds of samples
  auto verify = [&](const char* when) {
    for (auto& nm : NAMES) {
      std::vector<double> v = Profiler::getData(nm);
      auto it = data.find(nm);
      std::vector<double> e = it == data.end() ? std::vector<double>() : it->second;
      SIM_CHECK(v.size() == e.size(), "history-differs", "%s: '%s' has %zu samples instead of %zu", when, nm.c_str(), v.size(), e.size());
      SIM_CHECK(v == e, "history-differs", "%s: '%s' returns other samples than were recorded", when, nm.c_str());
    }
  };
  for (int i = 0; i < n; i++) {
    pass_time();
    uint32_t op = choose(14, "op");
    std::string nm = NAMES[choose((uint32_t)NAMES.size())];
    bool dname = separate && (nm == "beta" || nm == "delta task");
    event("op %u %s", op, nm.c_str());
    switch (op) {
      case 0: case 1: PROFILE_START(nm); started.insert(nm); break;
      case 2: case 3: case 4:
        if (dname) { double t = PROFILE_RECORD_DOUBLE(nm, 0.25 * i - 1); dbl[nm].push_back({t, 0.25 * i - 1}); break; }
        if (started.count(nm)) data[nm].push_back(PROFILE_RECORD(nm));
        else {
          bool threw = false;
          try { PROFILE_RECORD(nm); } catch (const std::exception&) { threw = true; }
          SIM_CHECK(threw, "unstarted-timer-recorded", "recording the timer '%s', which was never started, raised nothing", nm.c_str());
        }
        break;
      case 5:
        if (dname) break;
        { double x = (double)choose(1000) / 8; Profiler::addData(nm, x); data[nm].push_back(x); }
        break;
      case 6:
        if (separate && !dname) break;
        { double t = PROFILE_RECORD_DOUBLE(nm, i + 0.5); dbl[nm].push_back({t, i + 0.5}); }
        break;
      case 7:
        if (choose(3) == 0) { PROFILE_REINITIALIZE(choose(4), choose(6)); data.clear(); dbl.clear(); dbl_reset.clear(); }
        else if (choose(2)) {
          // clearing one name; samples with values of that name are not constrained afterwards
          PROFILE_RESET(nm);
          if (data.count(nm)) { data[nm].clear(); started.insert(nm); }
          if (dbl.count(nm)) dbl_reset.insert(nm);
        }
        break;
      case 8: {
        PROFILE_PRINT_SUMMARY_FOR_SINGLE(nm);
        break;
      }
      case 9: if (choose(2)) PROFILE_PRINT_SUMMARY_FOR_ALL(); else { std::vector<std::string> g; if (choose(3)) g.push_back(nm); PROFILE_PRINT_SUMMARY_FOR_GROUP(g); } break;
      case 10: verify("during the run"); break;
      default: {
        // a report, on a healthy or a failing disk
        std::string path = choose(4) ? "rep.txt" : "/sim/cwd/d/rep.txt";
        if (choose(4) != 0) fs_mkdir("/sim/cwd/d");
        std::string full = path[0] == '/' ? path : "/sim/cwd/" + path, before, after;
        if (choose(4) == 0) fs_write(full, "earlier text without newline");
        bool had = fs_read(full, &before);
        bool faulty = choose(2);
        FsFaults& f = fs_faults();
        f = FsFaults();
        if (faulty) switch (choose(5)) {
          case 0: f.open_err = 1; break;
          case 1: f.write_err = 1 + choose(2); break;
          case 2: f.short_write = 2; break;
          case 3: f.capacity = (int64_t)before.size() + choose(200); break;
          default: f.close_err = 1; break;
        }
        bool can_open = fs_isdir("/sim/cwd/d") || path == "rep.txt";
        fs_enable_faults(current_pid(), true);
        fs_clear_fired(current_pid());
        uint32_t kind = choose(3, "report kind");
        size_t limit = std::numeric_limits<size_t>::max();
        std::vector<std::string> group;
        try {
          if (kind == 0) {
            int k = choose(4);
            for (int j = 0; j < k; j++) group.push_back(choose(8) ? NAMES[choose((uint32_t)NAMES.size())] : std::string("~~~~~"));
            PROFILE_WRITE_SUMMARY_FOR_GROUP(path, group);
          } else if (kind == 1) {
            PROFILE_WRITE_SUMMARY_FOR_ALL(path);
            for (auto& x : data) group.push_back(x.first);
            for (auto& x : dbl) group.push_back(x.first);
          } else {
            if (choose(2)) { limit = choose(5); PROFILE_WRITE_ALL_FEWER_THAN(path, limit); } else PROFILE_WRITE_ALL(path);
          }
        } catch (const std::exception& e) {
          SIM_CHECK(fs_fault_fired(current_pid()) || !can_open, "report-failed", "a report on a healthy disk raised: %s", e.what());
        }
        bool hit = fs_fault_fired(current_pid()) || !can_open;
        fs_enable_faults(current_pid(), false);
        f = FsFaults();
        verify("after a report");
        if (hit) { probe("report_on_failing_disk"); break; }
        SIM_CHECK(fs_read(full, &after), "report-missing", "no report was written");
        SIM_CHECK(after.compare(0, before.size(), before) == 0, "report-overwrote", "the report did not preserve the %zu bytes that were in the file", before.size());
        (void)had;
        std::string rep = after.substr(before.size());
        if (kind < 2) {
          for (auto& g : group) {
            if (g.find("~~~~~") == 0) continue;
            bool both = data.count(g) && dbl.count(g);
            auto rs = rows(rep, g);
            SIM_CHECK(!rs.empty(), "report-incomplete", "the summary does not contain the requested name '%s'", g.c_str());
            if (both || dbl_reset.count(g)) continue;
            double tot = 0, val = 0; size_t calls = 0;
            if (data.count(g)) { for (double x : data[g]) tot += x; calls = data[g].size(); }
            else if (dbl.count(g)) { for (auto& x : dbl[g]) { tot += x.first; val += x.second; } calls = dbl[g].size(); }
            bool found = false;
            for (auto& v : rs) {
              if (v.size() < 2 || !close_to(v[0], tot) || v[1] != (double)calls) continue;
              if (dbl.count(g) && (v.size() < 4 || !close_to(v[3], val))) continue;
              if (calls && (v.size() < 3 || !close_to(v[2], tot / calls))) continue;
              found = true;
            }
            SIM_CHECK(found, "report-wrong", "the summary line of '%s' does not show %zu calls taking %f s in total (it shows %f, %f)", g.c_str(), calls, tot, rs[0][0], rs[0].size() > 1 ? rs[0][1] : -1);
          }
        } else {
          for (auto& g : NAMES) {
            bool both = data.count(g) && dbl.count(g);
            if (both || dbl_reset.count(g)) continue;
            auto rs = rows(rep, g);
            std::vector<std::vector<double>> exp;
            if (data.count(g) && data[g].size() < limit) for (double x : data[g]) exp.push_back({x});
            if (dbl.count(g) && dbl[g].size() < limit) for (auto& x : dbl[g]) exp.push_back({x.first, x.second});
            SIM_CHECK(rs.size() >= exp.size() || exp.empty(), "report-incomplete", "the dump lists %zu samples of '%s' instead of %zu", rs.size(), g.c_str(), exp.size());
            if (exp.empty()) continue;
            SIM_CHECK(rs.size() == exp.size(), "report-wrong", "the dump lists %zu samples of '%s' instead of %zu", rs.size(), g.c_str(), exp.size());
            for (size_t j = 0; j < exp.size(); j++)
              for (size_t q = 0; q < exp[j].size(); q++)
                SIM_CHECK(q < rs[j].size() && close_to(rs[j][q], exp[j][q]), "report-wrong", "sample %zu of '%s' is dumped as %f instead of %f", j, g.c_str(), q < rs[j].size() ? rs[j][q] : -1, exp[j][q]);
          }
        }
        probe("report_checked");
      }
    }
  }
  verify("at the end");
}

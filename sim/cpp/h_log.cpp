// C06, C07, C08: log files and directory creation under schedules, crashes and failing disks.
#include "sim.hpp"
#include <arc_utilities/log.hpp>
#include <arc_utilities/filesystem.hpp>
#include <memory>
#include <sys/stat.h>
#include <sstream>
using namespace sim;

// std::cout of the real program is safe to share between threads and never shared between processes
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static void quiet() {
  static NullBuf* n = new NullBuf;
  std::cout.rdbuf(n);
  std::cerr.rdbuf(n);
}
static std::string text(int who, int k) {
  std::string s = "t" + std::to_string(who) + " m" + std::to_string(k) + " ";
  uint32_t c = choose(12, "message length");
  size_t n = c < 6 ? choose(20) : c < 10 ? choose(300) : c < 11 ? 8180 + choose(24) : 9000 + choose(12000);
  for (size_t i = 0; i < n; i++) s += (char)('a' + (i + who * 5 + k) % 26);
  return s;
}
static std::vector<std::string> split_lines(const std::string& s, std::string* tail) {
  std::vector<std::string> r;
  size_t i = 0;
  for (;;) {
    size_t j = s.find('\n', i);
    if (j == std::string::npos) break;
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  *tail = s.substr(i);
  return r;
}

SCENARIO(C06) {
  quiet();
  int n = 2 + choose(3, "threads");
  struct Rec { std::string msg; int thread; uint64_t call, ret; };
  std::vector<Rec> recs;
  std::vector<std::vector<size_t>> mine(n);
  for (int i = 0; i < n; i++) {
    int k = 1 + choose(4, "messages");
    for (int j = 0; j < k; j++) { mine[i].push_back(recs.size()); recs.push_back({text(i, j), i, 0, 0}); }
  }
  if (choose(2)) { fs_faults().short_write = 1 + choose(3); fs_faults().eintr = choose(2) ? 4 : 0; }
  bool header = choose(2);
  uint64_t seq = 0;
  uint32_t api = choose(3);
  run_process([&] {
    fs_enable_faults(current_pid(), true);
    Log::Log log("/sim/cwd/logs/run.log", header);
    std::vector<int> t;
    for (int i = 0; i < n; i++)
      t.push_back(spawn([&, i] {
        for (size_t r : mine[i]) {
          { NoPreempt np; recs[r].call = ++seq; }
          if (api == 0) log.logMessage(recs[r].msg);
          else if (api == 1) ARC_LOG(log, recs[r].msg);
          else ARC_LOG_STREAM(log, recs[r].msg);
          { NoPreempt np; recs[r].ret = ++seq; }
        }
      }, "logger"));
    for (int x : t) join(x);
  }, "program");
  std::string s, tail;
  SIM_CHECK(fs_read("/sim/cwd/logs/run.log", &s), "no-log-file", "the log file does not exist");
  std::vector<std::string> l = split_lines(s, &tail);
  SIM_CHECK(tail.empty(), "partial-line", "the log ends with a partial line '%.60s'", tail.c_str());
  if (header) { SIM_CHECK(!l.empty() && l[0].size() == 19, "no-header", "the date line is missing"); l.erase(l.begin()); }
  std::map<std::string, size_t> want;
  for (size_t i = 0; i < recs.size(); i++) want[recs[i].msg] = i;
  std::vector<int> pos(recs.size(), -1);
  for (size_t i = 0; i < l.size(); i++) {
    auto it = want.find(l[i]);
    SIM_CHECK(it != want.end(), "torn-line", "line %zu of the log is not any logged message: '%.80s'", i, l[i].c_str());
    SIM_CHECK(pos[it->second] < 0, "duplicated-line", "a message is in the log twice: '%.80s'", l[i].c_str());
    pos[it->second] = (int)i;
  }
  for (size_t i = 0; i < recs.size(); i++) SIM_CHECK(pos[i] >= 0, "lost-line", "a logged message is missing: '%.80s'", recs[i].msg.c_str());
  for (size_t a = 0; a < recs.size(); a++)
    for (size_t b = 0; b < recs.size(); b++)
      if (recs[a].ret < recs[b].call) SIM_CHECK(pos[a] < pos[b], "wrong-order", "a message logged before another was written after it");
}

SCENARIO(C07) {
  quiet();
  std::vector<std::string> files = {"/sim/cwd/a.log", "b.log", "/sim/cwd/x/y/c.log"};
  auto full = [&](const std::string& f) { return f[0] == '/' ? f : "/sim/cwd/" + f; };
  struct Model { bool open = false, header = false, busy_open = false; std::vector<std::string> lines; std::string inflight; bool has_inflight = false; std::string before; bool existed = false; };
  static std::map<std::string, Model> model;
  model.clear();
  for (auto& f : files) if (choose(3) == 0) fs_write(full(f), "old text\nmore old text\n");
  int n = 4 + choose(25, "operations");
  if (choose(3) != 0) fs_faults().crash = 4 + choose(40);
  config().wall_jumps = choose(2);
  std::string err;
  Exit ex = run_process([&] {
    struct L { std::unique_ptr<Log::Log> log; std::string file; bool live = false; };  // live: not moved from
    std::vector<L> logs(4);
    fs_enable_faults(current_pid(), true);
    int k = 0;
    for (int i = 0; i < n; i++) {
      uint32_t op = choose(12, "op");
      size_t a = choose((uint32_t)logs.size()), b = choose((uint32_t)logs.size());
      std::string f = files[choose((uint32_t)files.size())];
      if (op <= 2) {
        // opening truncates: only when no other logger writes to the file
        if (logs[a].log && op != 0) continue;
        logs[a].log.reset();
        logs[a].live = false;
        bool used = false;
        for (auto& l : logs) if (l.log && l.file == f) used = true;
        if (used) continue;
        Model& m = model[f];
        bool hdr = choose(2);
        m.before.clear();
        m.existed = fs_read(full(f), &m.before);
        m.busy_open = true;
        m.header = hdr;
        bool faulty = choose(5) == 4;
        uint32_t sv = fs_faults().crash;
        fs_clear_fired(current_pid());
        if (faulty) { fs_faults().crash = 0; fs_faults().open_err = 2; fs_faults().mkdir_err = 2; }
        event("new Log(%s, %d)", f.c_str(), hdr);
        try {
          if (!hdr && choose(2)) logs[a].log.reset(new Log::Log(f));
          else logs[a].log.reset(new Log::Log(f, hdr));
          logs[a].file = f;
          logs[a].live = true;
          m.open = true;
          m.lines.clear();
        } catch (const std::exception& e) {
          if (!fs_fault_fired(current_pid())) { err = std::string("opening a logger on a healthy disk raised ") + e.what(); return; }
          probe("open_refused");
          logs[a].log.reset();
          // the file is left alone or was just emptied
          m.open = false;
        }
        m.busy_open = false;
        fs_faults().open_err = fs_faults().mkdir_err = 0;
        fs_faults().crash = sv;
      } else if (op <= 7) {
        if (!logs[a].log || !logs[a].live) continue;
        Model& m = model[logs[a].file];
        std::string t = text(0, k++);
        m.inflight = t;
        m.has_inflight = true;
        event("log to %s through logger %zu", logs[a].file.c_str(), a);
        if (choose(2)) logs[a].log->logMessage(t); else { ARC_LOG_COND(*logs[a].log, true, t); ARC_LOG_COND_STREAM(*logs[a].log, false, t << "x"); }
        m.lines.push_back(t);
        m.has_inflight = false;
      } else if (op == 8) {
        if (a == b || !logs[b].log || !logs[b].live || logs[a].log) continue;
        event("copy-construct %zu from %zu", a, b);
        logs[a].log.reset(new Log::Log(*logs[b].log));
        logs[a].file = logs[b].file;
        logs[a].live = true;
      } else if (op == 9) {
        if (!logs[a].log || !logs[b].log || !logs[b].live) continue;
        event("copy-assign %zu = %zu", a, b);
        *logs[a].log = *logs[b].log;
        logs[a].file = logs[b].file;
        logs[a].live = true;
      } else if (op == 10) {
        if (a == b || !logs[b].log || !logs[b].live) continue;
        if (logs[a].log) {
          event("move-assign %zu = %zu", a, b);
          *logs[a].log = std::move(*logs[b].log);
        } else {
          event("move-construct %zu from %zu", a, b);
          logs[a].log.reset(new Log::Log(std::move(*logs[b].log)));
        }
        logs[a].file = logs[b].file;
        logs[a].live = true;
        logs[b].live = false;
      } else {
        event("destroy %zu", a);
        logs[a].log.reset();
        logs[a].live = false;
      }
      if (choose(6) == 0) {
        // every line logged so far must be in its file already
        for (auto& x : model) {
          if (!x.second.open) continue;
          std::string s, tail;
          fs_read(full(x.first), &s);
          std::vector<std::string> l = split_lines(s, &tail);
          if (x.second.header && !l.empty()) l.erase(l.begin());
          if (l != x.second.lines) { err = "while running, " + x.first + " holds " + std::to_string(l.size()) + " lines instead of the " + std::to_string(x.second.lines.size()) + " logged"; return; }
        }
      }
    }
  }, "program");
  SIM_CHECK(err.empty(), "log-lost", "%s", err.c_str());
  if (ex == EXIT_KILLED) probe("killed");
  for (auto& x : model) {
    Model& m = x.second;
    std::string s, tail;
    bool there = fs_read(full(x.first), &s);
    if (m.busy_open) {
      // killed while the logger was being opened: old content, or empty, or (part of) the date line
      bool ok = !there || s == m.before || s.empty() || (m.header && s.size() <= 20);
      SIM_CHECK(ok, "bad-open-state", "after a crash while opening, %s holds '%.60s'", x.first.c_str(), s.c_str());
      continue;
    }
    if (!m.open) continue;
    SIM_CHECK(there, "log-missing", "%s does not exist", x.first.c_str());
    std::vector<std::string> l = split_lines(s, &tail);
    if (m.header) {
      SIM_CHECK(!l.empty() && l[0].size() == 19 && l[0][4] == '-' && l[0][13] == ':', "no-header", "%s does not start with a date line", x.first.c_str());
      l.erase(l.begin());
    }
    std::vector<std::string> want = m.lines;
    if (m.has_inflight && l.size() == want.size() + 1) want.push_back(m.inflight);
    SIM_CHECK(l.size() >= want.size(), "log-lost", "%s holds %zu whole lines after the %s, but %zu logging calls had returned", x.first.c_str(), l.size(), ex == EXIT_KILLED ? "crash" : "end", m.lines.size());
    SIM_CHECK(l == want, "log-differs", "%s holds %zu lines that are not the %zu logged lines in order", x.first.c_str(), l.size(), want.size());
    if (ex != EXIT_KILLED) SIM_CHECK(tail.empty(), "log-partial", "%s ends with a partial line without any crash", x.first.c_str());
    else SIM_CHECK(tail.empty() || (m.has_inflight && m.inflight.compare(0, tail.size(), tail) == 0), "log-garbage", "%s ends with '%.40s', which is no beginning of the line being logged", x.first.c_str(), tail.c_str());
  }
}

SCENARIO(C08) {
  quiet();
  static const char* names[] = {"/sim/cwd/a", "/sim/cwd/a/b", "a/b/c", "a/b/c/", "a/./b", "d/e/f/g", "/sim/cwd/d", "a/../d/e", "/sim/q/r"};
  const int NN = 9;
  // what exists beforehand
  bool blocked_a = false, blocked_ab = false;
  switch (choose(8)) {
    case 1: fs_mkdir("/sim/cwd/a"); fs_write("/sim/cwd/a/keep", "1"); break;
    case 2: fs_mkdir("/sim/cwd/a/b/c"); fs_write("/sim/cwd/a/b/keep", "2"); break;
    case 3: fs_write("/sim/cwd/a", "a file"); blocked_a = true; break;
    case 4: fs_write("/sim/cwd/a/b", "a file"); blocked_ab = true; break;
    case 5: fs_mkdir("/sim/cwd/d/e"); break;
    default: break;
  }
  std::map<std::string, std::string> before;
  for (auto& p : fs_list()) { std::string s; fs_read(p, &s); before[p] = s; }
  int nproc = 1 + choose(3, "processes");
  bool faulty = choose(3) == 2;
  if (faulty) { fs_faults().mkdir_err = choose(2) ? 3 : 0; fs_faults().stat_err = choose(2) ? 4 : 0; fs_faults().crash = choose(4) == 3 ? 8 : 0; }
  std::vector<int> pids;
  std::vector<std::string> paths, errs(nproc);
  std::vector<int> done(nproc, 0), dir_at_return(nproc, 0);
  static const char* rivals[] = {"/sim/cwd/a", "/sim/cwd/a/b", "/sim/cwd/a/b/c", "/sim/cwd/d", "/sim/cwd/d/e", "/sim/cwd/d/e/f", "/sim/q"};
  uint32_t rival = choose(4) == 0 ? 0 : 1 + choose(7);
  for (int i = 0; i < nproc; i++) paths.push_back(names[choose(NN)]);
  nontrivial();
  for (int i = 0; i < nproc; i++)
    pids.push_back(spawn_process([&, i] {
      fs_enable_faults(current_pid(), faulty);
      try {
        arc_utilities::CreateDirectory(paths[i]);
        NoPreempt np;
        dir_at_return[i] = fs_isdir(paths[i]);
        done[i] = 1;
      } catch (const std::exception& e) { NoPreempt np; done[i] = 2; errs[i] = e.what(); }
    }, "mkdir"));
  int rp = -1;
  if (rival) rp = spawn_process([&] {
    // another program creating the same directories one level at a time
    std::string p = rivals[rival - 1];
    for (size_t k = 9; k <= p.size(); k++)
      if (k == p.size() || p[k] == '/') { sched_point("rival"); int e = ::mkdir(p.substr(0, k).c_str(), 0755); (void)e; }
  }, "rival");
  std::vector<Exit> ex;
  for (int p : pids) ex.push_back(wait_process(p));
  if (rp >= 0) wait_process(rp);
  for (int i = 0; i < nproc; i++) {
    event("CreateDirectory(%s) -> %d", paths[i].c_str(), done[i]);
    if (ex[i] == EXIT_KILLED) continue;
    if (done[i] == 1) SIM_CHECK(dir_at_return[i], "missing-directory", "CreateDirectory(%s) returned but the directory does not exist", paths[i].c_str());
    bool in_way = (blocked_a && paths[i].find("a") != std::string::npos && paths[i] != "/sim/cwd/d" && paths[i] != "d/e/f/g" && paths[i] != "/sim/q/r") ||
                  (blocked_ab && paths[i].find("b") != std::string::npos);
    if (done[i] == 2 && !in_way && !fs_fault_fired(pids[i])) violation("creation-failed", "CreateDirectory(%s) raised although nothing was in the way: %s", paths[i].c_str(), errs[i].c_str());
    if (done[i] == 2) probe("refused");
    if (in_way && done[i] == 1) violation("file-taken-for-directory", "CreateDirectory(%s) returned although a file is in the way", paths[i].c_str());
  }
  for (auto& x : before) {
    std::string s;
    bool dir = x.first.back() == '/';
    SIM_CHECK(dir ? fs_isdir(x.first) : fs_read(x.first, &s), "existing-entry-removed", "%s was removed", x.first.c_str());
    SIM_CHECK(dir || s == x.second, "existing-entry-changed", "%s was changed", x.first.c_str());
  }
}

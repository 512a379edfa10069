// C59: optional values under failing copies. C60: first-order deformations under changing and failing validity checks.
#include "sim.hpp"
#include <arc_utilities/maybe.hpp>
#include <arc_utilities/first_order_deformation.h>
#include <algorithm>
#include <atomic>
#include <cstring>
#include <deque>
#include <memory>
#include <stdexcept>
using namespace sim;

// ------------------------------------------------------------------ C59
static int g_fail_in = -1;  // the n-th copy from now fails
struct CopyFailed : std::runtime_error { CopyFailed() : std::runtime_error("copy failed") {} };
static void maybe_fail() { if (g_fail_in >= 0 && g_fail_in-- == 0) { fault("copy_fails"); throw CopyFailed(); } }
struct Thing {  // a value whose copies can fail; a failed assignment leaves it as it was
  int64_t v = -1;
  Thing() {}
  explicit Thing(int64_t x) : v(x) {}
  Thing(const Thing& o) { maybe_fail(); v = o.v; }
  Thing& operator=(const Thing& o) { maybe_fail(); v = o.v; return *this; }
  bool operator==(const Thing& o) const { return v == o.v; }
};
static Thing make(const Thing*, uint32_t i) { return Thing(i); }
static int make(const int*, uint32_t i) { return (int)i; }
static std::string make(const std::string*, uint32_t i) { return i % 3 == 0 ? std::string(40 + i % 50, (char)('a' + i % 26)) : i % 3 == 1 ? std::to_string(i) : std::string(); }
static std::vector<int> make(const std::vector<int>*, uint32_t i) { return std::vector<int>(i % 7, (int)i); }
static std::shared_ptr<int> make(const std::shared_ptr<int>*, uint32_t i) { return i % 4 ? std::make_shared<int>((int)i) : nullptr; }

template <typename T> struct Model { bool has = false; T v{}; };
template <typename T> static void history(bool throws) {
  typedef Maybe::Maybe<T> M;
  const T* tag = nullptr;
  std::vector<std::unique_ptr<M>> m;
  std::vector<Model<T>> ref;
  auto same = [&](const T& a, const T& b) { return a == b; };
  auto check = [&](size_t i, const char* after) {
    const M& c = *m[i];
    SIM_CHECK(c.Valid() == ref[i].has, "validity", "after %s Valid() is %d where a value was %sgiven", after, (int)c.Valid(), ref[i].has ? "" : "not ");
    for (int k = 0; k < 2; k++) {
      bool got = false;
      try {
        const T& v = k ? m[i]->Get() : c.GetImmutable();
        got = true;
        SIM_CHECK(ref[i].has, "value-of-none", "after %s a value was read that was never given", after);
        SIM_CHECK(same(v, ref[i].v), "wrong-value", "after %s the value is not the one given last", after);
      } catch (const std::invalid_argument&) {
        SIM_CHECK(!got && !ref[i].has, "no-value", "after %s reading a value raised invalid_argument", after);
      }
    }
  };
  uint32_t serial = 1, n = 2 + choose(10, "operations");
  for (uint32_t step = 0; step < n; step++) {
    uint32_t op = choose(12, "operation");
    if (m.size() < 2 || (m.size() < 4 && op == 0)) {
      T v = make(tag, serial++);
      uint32_t how = choose(4, "construction");
      if (how == 3 && m.empty()) how = 0;
      size_t from = how == 3 ? choose((uint32_t)m.size()) : 0;
      Model<T> w;
      if (how == 1 || how == 2) { w.has = true; w.v = v; }
      if (how == 3) w = ref[from];
      std::unique_ptr<M> x;
      g_fail_in = -1;
      try {
        if (how == 1 || how == 2 || how == 3) { if (throws && choose(6) == 5) g_fail_in = (int)choose(3); alloc_arm(true); }
        x.reset(how == 0 ? new M() : how == 1 ? new M(v) : how == 2 ? new M(T(v)) : new M(static_cast<const M&>(*m[from])));
        alloc_arm(false);
        g_fail_in = -1;
      } catch (const CopyFailed&) { alloc_arm(false); g_fail_in = -1; continue; } catch (const std::bad_alloc&) { alloc_arm(false); g_fail_in = -1; probe("out of memory"); continue; }
      m.push_back(std::move(x));
      ref.push_back(w);
      check(m.size() - 1, how == 0 ? "construction without a value" : how == 3 ? "copy construction" : "construction with a value");
      continue;
    }
    size_t i = choose((uint32_t)m.size()), j = choose((uint32_t)m.size());
    T v = make(tag, serial++);
    const T keep = v;
    const char* what = "reading";
    Model<T> want = ref[i];
    try {
      g_fail_in = throws && choose(4) == 3 ? (int)choose(3) : -1;
      alloc_arm(true);
      switch (op) {
        case 1: case 2: what = "Set"; want.has = true; m[i]->Set(v); break;
        case 3: what = "Set of a temporary"; want.has = true; m[i]->Set(std::move(v)); break;
        case 4: case 5: what = "assignment of a value"; want.has = true; *m[i] = v; break;
        case 6: what = "assignment of a temporary"; want.has = true; *m[i] = std::move(v); break;
        case 7: case 8: what = "assignment"; want = ref[j]; *m[i] = static_cast<const M&>(*m[j]); break;
        case 9: what = "copy and assignment"; { M c(static_cast<const M&>(*m[j])); want = ref[j]; *m[i] = std::move(c); } break;
        case 10:
          what = "a change through Get";
          if (ref[i].has) m[i]->Get() = keep;
          break;
        default: break;
      }
      alloc_arm(false);
      g_fail_in = -1;
    } catch (const CopyFailed&) {
      alloc_arm(false); g_fail_in = -1;
      event("%s failed", what);
      check(i, (std::string("a failed ") + what).c_str());
      continue;
    } catch (const std::bad_alloc&) {
      alloc_arm(false); g_fail_in = -1;
      probe("out of memory");
      check(i, (std::string("a ") + what + " without memory").c_str());
      continue;
    } catch (const std::exception& x) {
      alloc_arm(false); g_fail_in = -1;
      violation("unexpected-exception", "%s raised %s", what, x.what());
    }
    event("%s", what);
    if (op >= 1 && op <= 6) want.v = keep;
    if (op == 10 && want.has) want.v = keep;
    ref[i] = want;
    for (size_t k = 0; k < m.size(); k++) check(k, what);  // the others are not affected
  }
}
SCENARIO(C59) {
  uint32_t t = choose(5, "type");
  if (choose(3, "memory") == 2) alloc_faults(1 + choose(4));
  bool throws = choose(2, "copies fail") == 1;
  nontrivial();
  if (t == 0) history<int>(false);
  else if (t == 1) history<std::string>(false);
  else if (t == 2) history<Thing>(throws);
  else if (t == 3) history<std::vector<int>>(false);
  else history<std::shared_ptr<int>>(false);
}

// ------------------------------------------------------------------ C60
namespace fod = arc_utilities::FirstOrderDeformation;
struct CheckFailed : std::runtime_error { int n; CheckFailed(int k) : std::runtime_error("validity check failed"), n(k) {} };
struct Map {
  ssize_t rows, cols;
  std::vector<uint8_t> ok;         // now
  std::vector<uint8_t> always, ever;
  uint8_t& at(std::vector<uint8_t>& v, ssize_t r, ssize_t c) { return v[(size_t)(r * cols + c)]; }
};
static bool reachable(Map& m, std::vector<uint8_t>& ok) {
  std::vector<uint8_t> seen(m.ok.size(), 0);
  std::deque<std::pair<ssize_t, ssize_t>> q{{0, 0}};
  m.at(seen, 0, 0) = 1;
  while (!q.empty()) {
    auto p = q.front();
    q.pop_front();
    if (p.first == m.rows - 1 && p.second == m.cols - 1) return true;
    for (ssize_t r = p.first - 1; r <= p.first + 1; r++)
      for (ssize_t c = p.second - 1; c <= p.second + 1; c++)
        if (r >= 0 && c >= 0 && r < m.rows && c < m.cols && m.at(ok, r, c) && !m.at(seen, r, c)) { m.at(seen, r, c) = 1; q.push_back({r, c}); }
  }
  return false;
}
static void search(Map& m, bool mem, bool fails, uint32_t change) {
  std::vector<uint8_t> said(m.ok.size(), 0);
  int calls = 0, fail_at = fails ? 1 + (int)choose(20, "fails at") : -1;
  bool threw = false;
  auto valid = [&](const ssize_t r, const ssize_t c) {
    NoPreempt np;
    SIM_CHECK(r >= 0 && c >= 0 && r < m.rows && c < m.cols, "outside", "the validity of cell (%zd, %zd) of a %zd by %zd grid was asked for", r, c, m.rows, m.cols);
    calls++;
    SIM_CHECK(calls < 100 * m.rows * m.cols + 1000, "endless", "%d validity checks on a %zd by %zd grid", calls, m.rows, m.cols);
    if (calls == fail_at) { threw = true; fault("validity_check_fails"); alloc_arm(false); throw CheckFailed(calls); }
    bool v = m.at(m.ok, r, c);
    if (v) m.at(said, r, c) = 1;
    if (change && choose(change) == change - 1) {  // the world moves on
      size_t k = choose((uint32_t)m.ok.size());
      m.ok[k] ^= 1;
      if (m.ok[k]) m.ever[k] = 1; else m.always[k] = 0;
      fault("world_changes");
    }
    return v;
  };
  m.always = m.ever = m.ok;
  fod::ValidityCheckFnType fn = valid;
  std::vector<fod::ConfigType> p;
  for (int attempt = 0;; attempt++) {
    try {
      alloc_arm(mem && attempt == 0);
      p = fod::GetFirstOrderDeformation(m.rows, m.cols, fn);
      alloc_arm(false);
      break;
    } catch (const CheckFailed& x) {
      alloc_arm(false);
      SIM_CHECK(threw && x.n == fail_at, "unexpected-exception", "another exception than the one of the validity check");
      threw = false;
      calls = 0;
      fail_at = -1;
      std::fill(said.begin(), said.end(), 0);
      m.always = m.ever = m.ok;
      probe("validity check failed");
    } catch (const std::bad_alloc&) {
      alloc_arm(false);
      SIM_CHECK(mem && attempt == 0, "unexpected-exception", "bad_alloc with memory left");
      calls = 0;
      std::fill(said.begin(), said.end(), 0);
      m.always = m.ever = m.ok;
      probe("out of memory");
    } catch (const std::exception& x) {
      alloc_arm(false);
      violation("unexpected-exception", "the search raised %s", x.what());
    }
  }
  SIM_CHECK(!threw, "exception-lost", "a failing validity check went unnoticed");
  if (p.empty()) {
    SIM_CHECK(!reachable(m, m.always), "no-path", "no path was found in a %zd by %zd grid that has one", m.rows, m.cols);
    probe("unreachable");
    return;
  }
  SIM_CHECK(reachable(m, m.ever), "impossible-path", "a path was found in a %zd by %zd grid that has none", m.rows, m.cols);
  SIM_CHECK(p.front() == fod::ConfigType(0, 0), "start", "the path begins at (%zd, %zd)", p.front().first, p.front().second);
  SIM_CHECK(p.back() == fod::ConfigType(m.rows - 1, m.cols - 1), "goal", "the path ends at (%zd, %zd) of a %zd by %zd grid", p.back().first, p.back().second, m.rows, m.cols);
  std::set<fod::ConfigType> seen;
  for (size_t i = 0; i < p.size(); i++) {
    SIM_CHECK(p[i].first >= 0 && p[i].second >= 0 && p[i].first < m.rows && p[i].second < m.cols, "outside", "the path leaves the grid at (%zd, %zd)", p[i].first, p[i].second);
    SIM_CHECK(seen.insert(p[i]).second, "repeated-cell", "the path is twice at (%zd, %zd)", p[i].first, p[i].second);
    if (i) {
      SIM_CHECK(std::abs(p[i].first - p[i - 1].first) <= 1 && std::abs(p[i].second - p[i - 1].second) <= 1, "jump", "the path jumps from (%zd, %zd) to (%zd, %zd)", p[i - 1].first, p[i - 1].second, p[i].first, p[i].second);
      SIM_CHECK(m.at(said, p[i].first, p[i].second), "invalid-cell", "the path goes through (%zd, %zd), which was never found valid", p[i].first, p[i].second);
    }
  }
}
SCENARIO(C60) {
  uint32_t nthreads = choose(4) == 3 ? 2 : 1;
  bool mem = choose(4, "memory") == 3;
  if (mem) alloc_faults(1 + choose(20));
  uint32_t change = choose(3) == 2 ? 2 + choose(12, "changes") : 0;
  std::vector<Map> maps(nthreads);
  for (auto& m : maps) {
    m.rows = 1 + choose(6, "rows");
    m.cols = 1 + choose(6, "columns");
    uint32_t kind = choose(4, "density");
    for (ssize_t i = 0; i < m.rows * m.cols; i++) m.ok.push_back(kind == 0 ? 1 : choose(10) >= kind * 2 - 1);
    if (choose(4)) m.ok.back() = 1;
  }
  nontrivial();
  auto body = [&](Map& m) {
    uint32_t n = 1 + choose(3, "searches");
    for (uint32_t i = 0; i < n; i++) {
      search(m, mem, choose(5) == 4, change);
      for (uint32_t k = choose(3); k-- > 0;) m.ok[choose((uint32_t)m.ok.size())] ^= 1;
    }
  };
  if (nthreads == 1) { body(maps[0]); return; }
  std::vector<int> t;
  for (auto& m : maps) t.push_back(spawn([&] { body(m); }, "searcher"));
  for (int x : t) join(x);
}

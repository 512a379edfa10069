// C52: resampling and upsampling of paths with failing callbacks, failing allocations and several threads.
#include "sim.hpp"
#include <cmath>
#include <functional>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <arc_utilities/path_utils.hpp>
using namespace sim;

struct CallFailed : std::runtime_error { int n; explicit CallFailed(int k) : std::runtime_error("callback failed"), n(k) {} };
struct St {  // a state remembers where it came from: state `from`, or the point at `ratio` of the way from `from` to `to`
  double x = 0, y = 0;
  int from = -1, to = -1;
  double ratio = 0;
  std::string load;
};
static bool same(const St& a, const St& b) { return a.x == b.x && a.y == b.y && a.from == b.from && a.to == b.to && a.ratio == b.ratio && a.load == b.load; }

struct World {
  std::vector<St> path;
  bool climb = false;      // going up costs twice
  int calls = 0, fail_at = -1, threw = 0;
  double dist(const St& a, const St& b) const { return std::hypot(b.x - a.x, b.y - a.y) * (climb && b.y > a.y ? 2.0 : 1.0); }
};
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

static void tick(World& w) {
  if (++w.calls == w.fail_at) { w.threw = w.calls; fault("callback_fails"); alloc_arm(false); throw CallFailed(w.calls); }
  SIM_CHECK(w.calls < 200000, "endless", "one request made %d callbacks", w.calls);
}

// The states of `out` between the k-th and the next state of the part: n of them, evenly spread, ending with the next state.
static bool is_state(const St& s, const std::vector<St>& p, int i) {
  return (s.from == i && s.ratio == 0) || (s.to == i && s.ratio == 1 && s.from == i - 1) || (s.from == i && s.to == i + 1 && s.ratio == 0);
}
static void check_between(const World& w, const std::vector<St>& out, size_t& pos, int i, int n, const char* what) {
  const St &a = w.path[i], &b = w.path[i + 1];
  for (int j = 1; j <= n; j++) {
    size_t at = pos + j;
    SIM_CHECK(at < out.size(), "too-short", "%s: %zu states, where state %d of the path needs one more", what, out.size(), i + 1);
    const St& s = out[at];
    if (j == n) { SIM_CHECK(is_state(s, w.path, i + 1), "state-missing", "%s: state %d of the path is not where it belongs", what, i + 1); }
    else SIM_CHECK(s.from == i && s.to == i + 1 && std::fabs(s.ratio - (double)j / n) < 1e-9, "spacing", "%s: point %d of %d between states %d and %d is %g of the way from %d to %d", what, j, n, i, i + 1, s.ratio, s.from, s.to);
    double f = (double)j / n, x = a.x + f * (b.x - a.x), y = a.y + f * (b.y - a.y);
    SIM_CHECK(std::fabs(s.x - x) <= 1e-9 * (1 + std::fabs(x)) && std::fabs(s.y - y) <= 1e-9 * (1 + std::fabs(y)), "off-path", "%s: a point between states %d and %d is off the path", what, i, i + 1);
  }
  pos += n;
}

static void check_resampled(const World& w, size_t s, size_t e, double step, const std::vector<St>& out) {
  const char* what = "resampling";
  SIM_CHECK(!out.empty() && same(out[0], w.path[s]), "first", "%s does not begin with state %zu", what, s);
  size_t pos = 0;
  int last = (int)s;  // the last state of the part that was kept
  for (size_t i = s; i + 1 < e; i++) {
    double r = w.dist(w.path[i], w.path[i + 1]) / step;
    if (r == 0) continue;
    // how many pieces: the fewest that are short enough (either when the quotient is on the edge of a whole number)
    int lo = std::max(1, (int)std::ceil(r * (1 - 1e-12))), hi = std::max(1, (int)std::ceil(r * (1 + 1e-12)));
    int n = lo;
    if (hi != lo && pos + hi < out.size() && is_state(out[pos + hi], w.path, (int)i + 1) && !(pos + lo < out.size() && is_state(out[pos + lo], w.path, (int)i + 1))) n = hi;
    check_between(w, out, pos, (int)i, n, what);
    last = (int)i + 1;
  }
  SIM_CHECK(pos + 1 == out.size(), "too-long", "%s: %zu states where %zu were expected", what, out.size(), pos + 1);
  for (size_t i = 0; i + 1 < out.size(); i++) {
    double d = w.dist(out[i], out[i + 1]);
    SIM_CHECK(d <= step * (1 + 1e-9), "gap", "%s: a gap of %g where %g was asked for", what, d, step);
  }
  SIM_CHECK(last == (int)e - 1 || w.dist(w.path[last], w.path[e - 1]) == 0, "last", "%s does not end with state %zu", what, e - 1);
}

static void check_upsampled(const World& w, size_t s, size_t e, size_t n, const std::vector<St>& out) {
  const char* what = "upsampling";
  if (n <= e - s) {
    SIM_CHECK(out.size() == e - s, "part", "%s a part of %zu states to %zu returned %zu states", what, e - s, n, out.size());
    for (size_t i = s; i < e; i++) SIM_CHECK(same(out[i - s], w.path[i]), "part", "%s a part that has enough states changed state %zu", what, i);
    return;
  }
  SIM_CHECK(out.size() == n, "count", "%s to %zu states returned %zu", what, n, out.size());
  SIM_CHECK(is_state(out[0], w.path, (int)s), "first", "%s does not begin with state %zu", what, s);
  size_t pos = 0;
  std::vector<std::pair<double, int>> seg;
  for (size_t i = s; i + 1 < e; i++) {
    int k = 1;
    while (pos + k < out.size() && !is_state(out[pos + k], w.path, (int)i + 1)) k++;
    check_between(w, out, pos, (int)i, k, what);
    seg.push_back({w.dist(w.path[i], w.path[i + 1]), k});
  }
  SIM_CHECK(pos + 1 == out.size(), "too-long", "%s: %zu states where %zu were expected", what, out.size(), pos + 1);
  SIM_CHECK(same(out.back(), w.path[e - 1]) || is_state(out.back(), w.path, (int)e - 1), "last", "%s does not end with state %zu", what, e - 1);
  double worst = 0;
  for (auto& x : seg) worst = std::max(worst, x.first / x.second);
  for (auto& x : seg)
    if (x.second > 1) SIM_CHECK(x.first / (x.second - 1) >= worst * (1 - 1e-9), "longest-first", "%s left a gap of %g while one of %g was split %d times", what, worst, x.first, x.second - 1);
}

static void request(World& w, bool mem) {
  const std::vector<St> given = w.path;
  const auto dist = [&w](const St& a, const St& b) { NoPreempt np; tick(w); return w.dist(a, b); };
  const auto between = [&w](const St& a, const St& b, const double f) {
    NoPreempt np;
    tick(w);
    SIM_CHECK(f >= 0 && f <= 1, "ratio", "a point at %g of the way was asked for", f);
    if (f == 0) return a;
    if (f == 1) return b;
    St s;
    s.x = a.x + f * (b.x - a.x);
    s.y = a.y + f * (b.y - a.y);
    s.from = a.from; s.to = b.from; s.ratio = f;
    return s;
  };
  const std::function<double(const St&, const St&)> fdist = dist;
  const std::function<St(const St&, const St&, const double)> fbetween = between;
  uint32_t what = choose(8, "request"), len = (uint32_t)w.path.size();
  bool up = what & 1, partial = what & 2, fn = what & 4;
  size_t s = partial ? choose(len + 1, "from") : 0, e = partial ? choose(len + 2, "to") : len;
  double step = 0;
  size_t n = 0;
  if (up) {
    if (len == 0) return;
    if (!(s < e && e <= len)) { s = 0; e = len; }          // asserted
    n = choose(3) ? (e - s) + choose(20, "more") : choose((uint32_t)(e - s) + 1, "fewer");
    if (e - s == 1 && n > 1) n = 1;                         // nothing to split: asserted
  } else {
    static const double steps[] = {1.0, 0.5, 0.1, 3.0, 0.3, 1e6, 0.7, 0.25};
    step = steps[choose(8, "step")];
  }
  w.calls = w.threw = 0;
  w.fail_at = choose(4) == 3 ? 1 + (int)choose(choose(2) ? 6 : 60, "fails at") : -1;
  bool bad = !up && !(s < e && e <= len);
  for (int attempt = 0; attempt < 3; attempt++) {
    bool done = false;
    std::vector<St> out;
    try {
      alloc_arm(mem && attempt == 0);
      if (up) {
        if (partial) out = fn ? path_utils::UpsamplePathPartial(w.path, (ssize_t)s, (ssize_t)e, (ssize_t)n, fdist, fbetween) : path_utils::UpsamplePathPartial(w.path, (ssize_t)s, (ssize_t)e, (ssize_t)n, dist, between);
        else out = fn ? path_utils::UpsamplePath(w.path, (ssize_t)n, fdist, fbetween) : path_utils::UpsamplePath(w.path, (ssize_t)n, dist, between);
      } else {
        if (partial) out = fn ? path_utils::ResamplePathPartial(w.path, s, e, step, fdist, fbetween) : path_utils::ResamplePathPartial(w.path, s, e, step, dist, between);
        else out = fn ? path_utils::ResamplePath(w.path, step, fdist, fbetween) : path_utils::ResamplePath(w.path, step, dist, between);
      }
      alloc_arm(false);
      done = true;
    } catch (const CallFailed& x) {
      alloc_arm(false);
      SIM_CHECK(w.threw && x.n == w.threw, "unexpected-exception", "another failure than the one of the callback");
      probe("callback failed");
    } catch (const std::bad_alloc&) {
      alloc_arm(false);
      SIM_CHECK(mem && attempt == 0, "unexpected-exception", "bad_alloc with memory left");
      probe("out of memory");
    } catch (const std::invalid_argument& x) {
      alloc_arm(false);
      SIM_CHECK(bad, "refused", "states %zu to %zu of %u were refused: %s", s, e, len, x.what());
      probe("refused");
    } catch (const std::exception& x) {
      alloc_arm(false);
      violation("unexpected-exception", "the request raised %s", x.what());
    }
    if (done) SIM_CHECK(!w.threw, "swallowed", "the failure of a callback went unnoticed");
    SIM_CHECK(w.path.size() == given.size(), "path-changed", "the caller's path has %zu states instead of %zu", w.path.size(), given.size());
    for (size_t i = 0; i < given.size(); i++) SIM_CHECK(same(w.path[i], given[i]), "path-changed", "state %zu of the caller's path was changed", i);
    if (done) {
      SIM_CHECK(!bad, "not-refused", "states %zu to %zu of %u were accepted", s, e, len);
      event("%s %zu..%zu of %u -> %zu", up ? "up" : "re", s, e, len, out.size());
      if (up) check_upsampled(w, s, e, n, out); else check_resampled(w, s, e, step, out);
      break;
    }
    w.calls = w.threw = 0;
    w.fail_at = -1;
  }
}

SCENARIO(C52) {
  static NullBuf nb;
  std::cerr.rdbuf(&nb);
  uint32_t nthreads = choose(4) == 3 ? 2 : 1;
  bool mem = choose(3, "memory") == 2;
  if (mem) alloc_faults(1 + choose(20));
  std::vector<World> ws(nthreads);
  for (auto& w : ws) {
    uint32_t n = choose(8, "states") , grid = choose(3);
    w.climb = choose(4) == 3;
    for (uint32_t i = 0; i < n; i++) {
      St s;
      if (i && choose(5) == 4) { s.x = w.path.back().x; s.y = w.path.back().y; }   // standing still
      else if (grid) { s.x = (int)choose(7) - 3; s.y = (int)choose(7) - 3; }
      else { s.x = choose(1000) * 0.013; s.y = choose(1000) * 0.0071; }
      s.from = s.to = (int)i;
      if (choose(3) == 2) s.load.assign(30 + choose(40), 'a' + (char)i);
      w.path.push_back(s);
    }
  }
  nontrivial();
  auto body = [&](World& w) { for (uint32_t k = 1 + choose(3, "requests"); k-- > 0;) request(w, mem); };
  if (nthreads == 1) { body(ws[0]); return; }
  std::vector<int> t;
  for (auto& w : ws) t.push_back(spawn([&] { body(w); }, "planner"));
  for (int x : t) join(x);
}

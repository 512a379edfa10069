// C15..C19: code driven by random streams; the stream (and the clock that seeds one) is the simulator's.
#include "sim.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/dijkstras.hpp>
#include <arc_utilities/path_utils.hpp>
#include <arc_utilities/simple_kmeans_clustering.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace sim;

// Random stream: pseudo-random words from a recorded seed with recorded extreme words put in.
struct Stream {
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  uint64_t s = 0, draws = 0, limit = 0;
  std::vector<std::pair<uint64_t, uint64_t>> inject;
  size_t next_inject = 0;
  const char* what = "";
  explicit Stream(uint64_t horizon) {
    s = ((uint64_t)choose(1u << 31, "stream seed") << 20) + 77;
    uint32_t n = choose(3) ? 0 : 1 + choose(6, "extreme words");
    uint64_t at = 0;
    static const uint64_t ext[] = {0, ~(uint64_t)0, 1, (uint64_t)1 << 63, ~(uint64_t)0 - 1, ((uint64_t)1 << 63) - 1, ~(uint64_t)0 << 11, 0x7ff};
    for (uint32_t i = 0; i < n; i++) { at += 1 + choose(horizon > 8 && choose(2) ? (uint32_t)horizon : 8); inject.push_back({at, ext[choose(8)]}); }
  }
  uint64_t operator()() {
    draws++;
    if (limit && draws > limit) violation("no-progress", "%s took more than %llu words of the random stream", what, (unsigned long long)limit);
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    if (next_inject < inject.size() && inject[next_inject].first == draws) { z = inject[next_inject++].second; fault("extreme_word"); }
    return z;
  }
};

// ------------------------------------------------------------------ C15
struct Km { double x = NAN, y = NAN, w = 0; int id = -1; };
static double sq(const Km& a, const Km& b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
SCENARIO(C15) {
  config().preempt = false;
  config().wall_jumps = choose(2);
  uint32_t rounds = 1 + choose(2);
  for (uint32_t r = 0; r < rounds; r++) {
    uint32_t k = choose(8) ? 2 + choose(4, "clusters") : 1;
    bool prelim = choose(2, "preliminary");
    uint32_t n = k + choose(12, "elements");
    if (prelim && choose(3)) { k = 2; n = 91 + choose(60, "elements"); }
    // At least k distinct elements; the others may repeat.
    std::vector<Km> data(n);
    uint32_t span = choose(2) ? 3 : 40;
    uint32_t noise = choose(1u << 30, "data");
    for (uint32_t i = 0; i < n; i++) {
      Km& p = data[i];
      if (n <= 20) { p.x = choose(span); p.y = choose(span); }
      else {
        noise = noise * 1664525u + 1013904223u; p.x = (noise >> 16) % span;
        noise = noise * 1664525u + 1013904223u; p.y = (noise >> 16) % span;
      }
      p.w = 0.25 * (1 + (n <= 20 ? choose(16) : (noise >> 8) % 16)); p.id = (int)i;
    }
    for (uint32_t i = 0; i < k; i++) { data[i].x = 2 * (double)i; data[i].y = (double)((i * i) % 7); }
    if (choose(2)) std::reverse(data.begin(), data.end());
    for (uint32_t i = 0; i < n; i++) data[i].id = (int)i;
    std::vector<double> weights(n);
    for (uint32_t i = 0; i < n; i++) weights[i] = data[i].w;
    bool weighted = choose(2, "weighted");
    switch (choose(4)) {
      case 0: set_wall_offset(0); break;
      case 1: set_wall_offset((int64_t)choose(1u << 31) << 30); fault("clock_set"); break;
      case 2: set_wall_offset((int64_t)choose(1000) - mono_ns()); fault("clock_set"); break;
      default: break;
    }
    uint64_t calls = 0;
    auto tick = [&] { if (++calls > 4000) violation("no-progress", "clustering of %u elements into %u does not converge", n, k); };
    std::function<double(const Km&, const Km&)> d = [](const Km& a, const Km& b) { return sq(a, b); };
    std::function<Km(const std::vector<Km>&)> avg = [&](const std::vector<Km>& v) {
      tick();
      SIM_CHECK(!v.empty(), "empty-cluster", "the averaging function got no elements (%u elements, %u clusters)", n, k);
      Km c; c.x = c.y = 0;
      for (const Km& p : v) { SIM_CHECK(p.id >= 0 && p.id < (int)n && sq(p, data[p.id]) == 0, "foreign-element", "averaged something that is not an element"); c.x += p.x; c.y += p.y; }
      c.x /= v.size(); c.y /= v.size();
      return c;
    };
    std::function<Km(const std::vector<Km>&, const std::vector<double>&)> wavg = [&](const std::vector<Km>& v, const std::vector<double>& w) {
      tick();
      SIM_CHECK(!v.empty(), "empty-cluster", "the averaging function got no elements (%u elements, %u clusters)", n, k);
      SIM_CHECK(v.size() == w.size(), "weights-shape", "averaged %zu elements with %zu weights", v.size(), w.size());
      Km c; c.x = c.y = 0; double s = 0;
      for (size_t i = 0; i < v.size(); i++) {
        SIM_CHECK(v[i].id >= 0 && v[i].id < (int)n && sq(v[i], data[v[i].id]) == 0, "foreign-element", "averaged something that is not an element");
        SIM_CHECK(w[i] == weights[v[i].id], "wrong-weight", "element %d with weight %g was averaged with weight %g", v[i].id, weights[v[i].id], w[i]);
        c.x += w[i] * v[i].x; c.y += w[i] * v[i].y; s += w[i];
      }
      c.x /= s; c.y /= s;
      return c;
    };
    std::vector<Km> given = data;
    uint64_t before = clock_reads();
    std::vector<uint32_t> lab = weighted ? simple_kmeans_clustering::SimpleKMeansClustering::ClusterWeighted(data, weights, d, wavg, k, prelim)
                                         : simple_kmeans_clustering::SimpleKMeansClustering::Cluster(data, d, avg, k, prelim);
    if (clock_reads() - before > 1) probe("preliminary");
    event("n=%u k=%u weighted=%d prelim=%d averages=%llu", n, k, weighted, prelim, (unsigned long long)calls);
    std::string ls;
    for (auto l : lab) ls += std::to_string(l) + ",";
    event("%s", ls.c_str());
    SIM_CHECK(lab.size() == n, "shape", "%zu labels for %u elements", lab.size(), n);
    std::vector<std::vector<Km>> g(k);
    std::vector<std::vector<double>> gw(k);
    for (uint32_t i = 0; i < n; i++) {
      SIM_CHECK(lab[i] < k, "label-range", "element %u has label %u of %u clusters", i, lab[i], k);
      g[lab[i]].push_back(given[i]); gw[lab[i]].push_back(weights[i]);
    }
    // Different elements: the first centres are different too, and from then on a cluster never takes in all of the others.
    bool different = true;
    for (uint32_t i = 0; i < n && different; i++) for (uint32_t j = 0; j < i; j++) if (sq(given[i], given[j]) == 0) { different = false; break; }
    if (different && k > 1) {
      probe("all_different");
      uint32_t used = 0;
      for (auto& x : g) used += !x.empty();
      SIM_CHECK(used >= 2, "one-cluster-only", "all of %u different elements got the same label, of %u clusters", n, k);
    }
    calls = 0;
    std::vector<Km> c(k);
    for (uint32_t j = 0; j < k; j++) { if (g[j].empty()) { probe("empty_cluster"); continue; } c[j] = weighted ? wavg(g[j], gw[j]) : avg(g[j]); }
    if (k == 1) continue;
    nontrivial();
    for (uint32_t i = 0; i < n; i++)
      for (uint32_t j = 0; j < k; j++) {
        if (g[j].empty()) continue;
        SIM_CHECK(sq(given[i], c[lab[i]]) <= sq(given[i], c[j]) + 1e-9, "not-nearest", "element %u is labelled %u (squared distance %g to its centre) but the centre of %u is nearer (%g); %s, %u elements, %u clusters", i, lab[i],
                  sq(given[i], c[lab[i]]), j, sq(given[i], c[j]), weighted ? "weighted" : "unweighted", n, k);
      }
  }
}

// ------------------------------------------------------------------ C16
static long double Qf(long double x) { return erfcl(x / sqrtl(2.0L)) / 2; }                      // upper tail
static long double mass(long double a, long double b) { return a >= 0 ? Qf(a) - Qf(b) : b <= 0 ? Qf(-b) - Qf(-a) : 1 - Qf(-a) - Qf(b); }
// Kolmogorov-Smirnov distance of v (sorted in place) from a distribution function
template <typename F> static double ks(std::vector<double>& v, F cdf) {
  std::sort(v.begin(), v.end());
  double D = 0;
  for (size_t i = 0; i < v.size(); i++) {
    double c = cdf(v[i]);
    D = std::max(D, std::max(std::fabs(c - (double)i / v.size()), std::fabs((double)(i + 1) / v.size() - c)));
  }
  return D;
}
static const double KS_LIMIT = 4.0;  // sqrt(n) * D; a correct sampler exceeds it with probability 2e-14

static double magnitude() {
  static const double m[] = {1, 0.5, 2, 0.1, 3, 0.01, 5, 10, 1e-3, 30, 1e-6, 100, 1e-9, 300, 1e-12};
  return m[choose(15)] * (choose(2) ? 1.0 : 1.0 + choose(1000) / 1000.0);
}
static void truncated() {
  double mean = choose(3) ? 0.0 : (choose(2) ? 1 : -1) * magnitude() * (choose(4) ? 1 : 1e6);
  double dev = choose(2) ? 1.0 : magnitude();
  uint32_t shape = choose(9, "shape");
  double lo, hi, zl = 0, zh = 0;
  switch (shape) {
    case 0: zl = -magnitude(); zh = magnitude(); break;                     // around the mean
    case 1: zl = magnitude(); zh = zl + magnitude(); break;                 // above
    case 2: zh = -magnitude(); zl = zh - magnitude(); break;                // below
    case 3: zl = choose(2) ? magnitude() : -magnitude(); zh = INFINITY; break;
    case 4: zh = choose(2) ? magnitude() : -magnitude(); zl = -INFINITY; break;
    case 5: zl = 0; zh = choose(3) ? magnitude() : 0; break;                // at the mean
    case 6: zh = 0; zl = -magnitude(); break;
    case 7: zl = zh = (choose(3) ? magnitude() : 0.0) * (choose(2) ? 1 : -1); break;  // a single value
    default: zl = -INFINITY; zh = INFINITY; break;
  }
  if (shape < 8 && !choose(20)) dev = 0;
  double sc = dev == 0 ? 1 : dev;
  lo = mean + sc * zl; hi = mean + sc * zh;
  if (shape == 7 && choose(2)) { dev = sc = 0.01 * (1 + choose(500)); lo = hi = choose(2000) / 7.0 - 100; }   // bounds whose standardised form is rounded
  if (!(lo <= hi)) std::swap(lo, hi);
  event("mean %.17g dev %.17g bounds %.17g %.17g", mean, dev, lo, hi);
  Stream rng(400);
  rng.what = "one truncated normal sample";
  arc_helpers::TruncatedNormalDistribution dist(mean, dev, lo, hi);
  uint32_t n = choose(3) ? 40 : choose(4) ? 600 : 6000;
  std::vector<double> v;
  uint64_t total = 0;
  for (uint32_t i = 0; i < n; i++) {
    rng.limit = rng.draws + 400000;
    uint64_t b = rng.draws;
    double x = dist(rng);
    total += rng.draws - b;
    if (total > 3000000) n = i + 1;
    if (dev == 0) { SIM_CHECK(x == mean, "zero-deviation", "deviation 0 and mean %.17g gave %.17g", mean, x); continue; }
    SIM_CHECK(x >= lo && x <= hi, "out-of-bounds", "mean %.17g deviation %.17g bounds [%.17g, %.17g] gave %.17g", mean, dev, lo, hi, x);
    v.push_back(x);
  }
  double cs = 0;
  for (double x : v) cs = cs * 3 + x;
  event("%zu samples, checksum %a", v.size(), cs);
  nontrivial();
  // distribution: only where the bounds are resolved well by doubles
  long double a = ((long double)lo - mean) / sc, b = ((long double)hi - mean) / sc;
  double res = std::max(std::fabs(mean), std::max(std::isinf(lo) ? 0.0 : std::fabs(lo), std::isinf(hi) ? 0.0 : std::fabs(hi))) * 1e-12;
  long double cut = std::max(std::isinf(lo) ? 0.0 : std::fabs((double)a), std::isinf(hi) ? 0.0 : std::fabs((double)b));
  double scale = std::min((double)(b - a), 1.0) * sc / std::max(1.0, (double)std::min(fabsl(a), fabsl(b)));
  if (dev == 0 || n != v.size() || v.size() < 30 || lo == hi || !(res < scale * 1e-3)) return;
  if ((a > 0 ? a : b < 0 ? -b : 0) > 40 || std::isnan((double)cut)) return;
  long double tot = mass(a, b);
  if (!(tot > 0)) return;
  probe("distribution_checked");
  double D = ks(v, [&](double x) { long double z = ((long double)x - mean) / sc; return (double)(b < 0 ? 1 - mass(z, b) / tot : mass(a, z) / tot); });
  SIM_CHECK(D * std::sqrt((double)v.size()) < KS_LIMIT, "distribution", "mean %.17g deviation %.17g bounds [%.17g, %.17g]: %zu samples are %.3f away from the truncated normal distribution", mean, dev, lo, hi, v.size(), D);
}
static void rotations() {
  Stream rng(200);
  rng.what = "one random rotation";
  arc_helpers::RandomRotationGenerator gen;
  uint32_t n = choose(3) ? 20 : 500, kind = choose(4, "kind");
  std::vector<double> s[4];
  for (uint32_t i = 0; i < n; i++) {
    rng.limit = rng.draws + 1000;
    if (kind < 2) {
      Eigen::Quaterniond q;
      if (kind == 0) q = gen.GetQuaternion(rng);
      else {
        std::vector<double> r = gen.GetRawQuaternion(rng);
        SIM_CHECK(r.size() == 4, "shape", "raw quaternion has %zu parts", r.size());
        q = Eigen::Quaterniond(r[3], r[0], r[1], r[2]);
      }
      double nn = q.squaredNorm();
      SIM_CHECK(std::fabs(nn - 1) < 1e-9, "not-unit", "quaternion %g %g %g %g has squared norm %.12g", q.w(), q.x(), q.y(), q.z(), nn);
      // a uniform rotation has a uniform square sum of any two parts
      s[0].push_back(q.x() * q.x() + q.y() * q.y());
      s[1].push_back(q.x() * q.x() + q.w() * q.w());
      s[2].push_back(q.x() * q.x() + q.z() * q.z());
    } else {
      double e[3];
      if (kind == 2) { Eigen::Vector3d v = gen.GetEulerAngles(rng); for (int j = 0; j < 3; j++) e[j] = v[j]; }
      else {
        std::vector<double> v = gen.GetRawEulerAngles(rng);
        SIM_CHECK(v.size() == 3, "shape", "raw Euler angles have %zu parts", v.size());
        for (int j = 0; j < 3; j++) e[j] = v[j];
      }
      for (int j = 0; j < 3; j++) SIM_CHECK(e[j] >= -2 * M_PI - 1e-9 && e[j] <= 2 * M_PI + 1e-9, "angle-range", "Euler angle %d is %.17g", j, e[j]);
      for (int j = 0; j < 3; j += 2) { double t = e[j] / (2 * M_PI); s[j].push_back(t - std::floor(t)); }
      s[1].push_back((std::sin(e[1]) + 1) / 2);
    }
  }
  double cs = 0;
  for (auto& v : s) for (double x : v) cs = cs * 3 + x;
  event("%u rotations kind %u, checksum %a", n, kind, cs);
  nontrivial();
  for (int j = 0; j < 4; j++) {
    if (s[j].size() < 500) continue;
    probe("distribution_checked");
    double D = ks(s[j], [](double x) { return x < 0 ? 0.0 : x > 1 ? 1.0 : x; });
    SIM_CHECK(D * std::sqrt((double)s[j].size()) < KS_LIMIT, "distribution", "statistic %d of %u random %s is %.3f away from uniform", j, n, kind < 2 ? "quaternions" : "Euler angles", D);
  }
}
SCENARIO(C16) {
  config().preempt = false;
  if (choose(4)) truncated(); else rotations();
}

// ------------------------------------------------------------------ C17
struct Node { int id; int v; bool operator==(const Node& o) const { return v == o.v; } };
SCENARIO(C17) {
  config().preempt = false;
  uint32_t n = choose(4) ? choose(12, "states") : choose(200, "states");
  std::vector<Node> path(n);
  bool repeats = choose(2);
  for (uint32_t i = 0; i < n; i++) path[i] = {(int)i, repeats ? (int)choose(3) : (int)i};
  uint32_t iters = choose(3) ? choose(60, "iterations") : choose(600, "iterations"), fails = choose(2) ? 1000000 : choose(12, "failures");
  static const double fr[] = {0.5, 1.0, 0.1, 0.0, 0.25, 2.0, 1e-3, 5.0};
  double frac = fr[choose(8, "fraction")];
  uint32_t mode = choose(5, "validity");
  uint32_t bits = choose(1u << 16, "validity bits");
  std::set<std::pair<int, int>> accepted;
  uint64_t checks = 0, failed = 0;
  auto valid = [&](const Node& a, const Node& b) {
    checks++;
    SIM_CHECK(checks <= iters, "iterations", "more than %u edge checks for %u iterations", iters, iters);
    SIM_CHECK(failed < fails, "failures", "checked another edge after %u failed ones", fails);
    bool ok;
    switch (mode) {
      case 0: ok = true; break;
      case 1: ok = false; break;
      case 2: ok = a.id < b.id; break;                                       // one way only
      case 3: ok = ((a.id * 31u + b.id * 17u + bits) % 7u) < 3; break;        // a fixed environment
      default: ok = choose(3) != 0; break;                                   // an environment that changes
    }
    if (ok) accepted.insert({a.id, b.id}); else failed++;
    return ok;
  };
  const std::vector<Node> given = path;
  Stream rng(100);
  rng.limit = 64ull * (iters + 4);
  rng.what = "one smoothing";
  std::vector<Node> out = path_utils::ShortcutSmoothPath(given, iters, fails, frac, valid, rng);
  event("n=%u iters=%u fails=%u frac=%g mode=%u -> %zu, %llu checks %llu failed", n, iters, fails, frac, mode, out.size(), (unsigned long long)checks, (unsigned long long)failed);
  for (uint32_t i = 0; i < n; i++) SIM_CHECK(given[i].id == (int)i && given[i].v == path[i].v, "input-changed", "input state %u was changed", i);
  SIM_CHECK(out.size() <= given.size(), "longer", "%zu states became %zu", given.size(), out.size());
  SIM_CHECK(out.empty() == given.empty(), "ends", "%zu states became %zu", given.size(), out.size());
  // an iteration takes at least one word of the stream
  SIM_CHECK(out.size() <= 2 || failed >= fails || rng.draws >= iters, "stopped-early", "%zu states are left after %llu of %u failures and at most %llu of %u iterations", out.size(), (unsigned long long)failed, fails, (unsigned long long)rng.draws, iters);
  if (out.empty()) return;
  SIM_CHECK(out.front().id == 0 && out.back().id == (int)n - 1, "ends", "the smoothed path goes from state %d to %d of %u", out.front().id, out.back().id, n);
  for (size_t i = 0; i + 1 < out.size(); i++) {
    SIM_CHECK(out[i].id < out[i + 1].id, "order", "state %d is followed by state %d", out[i].id, out[i + 1].id);
    SIM_CHECK(out[i + 1].v == path[out[i + 1].id].v, "state-changed", "state %d was changed", out[i + 1].id);
    SIM_CHECK(out[i].id + 1 == out[i + 1].id || accepted.count({out[i].id, out[i + 1].id}), "unchecked-shortcut", "the shortcut from state %d to %d was never accepted", out[i].id, out[i + 1].id);
  }
  for (const Node& o : out)
    for (auto& a : accepted) SIM_CHECK(o.id <= a.first || o.id >= a.second, "shortcut-not-taken", "the shortcut from state %d to %d was accepted but state %d is still there", a.first, a.second, o.id);
  if (out.size() < given.size()) nontrivial();
}

// ------------------------------------------------------------------ C18
SCENARIO(C18) {
  config().preempt = false;
  typedef arc_dijkstras::Graph<int> G;
  uint32_t n = 1 + choose(9, "nodes");
  G g(n);
  std::vector<std::vector<int>> out(n);
  uint32_t edges = choose(3 * n + 1, "edges");
  std::vector<std::pair<int, int>> es;
  for (uint32_t i = 0; i < edges; i++) { int f = (int)choose(n), t = (int)choose(n); if (f != t) es.push_back({f, t}); }
  int start = (int)choose(n), goal = (int)choose(n);
  // The walk must not get stuck: every node reachable from the start can reach the goal.
  auto reach = [&](int s, bool back) {
    std::vector<bool> seen(n, false);
    std::vector<int> st(1, s);
    seen[s] = true;
    while (!st.empty()) {
      int x = st.back(); st.pop_back();
      if (!back && x == goal) continue;
      for (auto& e : es) { int f = back ? e.second : e.first, t = back ? e.first : e.second; if (f == x && !seen[t]) { seen[t] = true; st.push_back(t); } }
    }
    return seen;
  };
  for (int rounds = 0; rounds < 12; rounds++) {
    auto from = reach(start, false), to = reach(goal, true);
    int bad = -1;
    for (uint32_t i = 0; i < n; i++) if (from[i] && !to[i]) bad = (int)i;
    if (bad < 0) break;
    es.push_back({bad, goal});
  }
  bool goal_sink = choose(2, "goal without out edges");
  if (goal_sink) es.erase(std::remove_if(es.begin(), es.end(), [&](const std::pair<int, int>& e) { return e.first == goal; }), es.end());
  for (uint32_t i = 0; i < n; i++) g.addNode((int)(i * 10));
  for (auto& e : es) { g.addEdgeBetweenNodes(e.first, e.second, 1.0); out[e.first].push_back(e.second); }
  uint32_t walks = 1 + choose(3);
  for (uint32_t w = 0; w < walks; w++) {
    Stream rng(12);
    rng.limit = 3000000;
    rng.what = "one random walk";
    std::vector<int64_t> p;
    try {
      p = arc_dijkstras::GraphRandomWalk<int>::PerformRandomWalk(g, start, goal, rng);
    } catch (const std::exception& e) { violation("threw", "the walk from %d to %d threw: %s", start, goal, e.what()); }
    std::string s;
    for (auto x : p) s += std::to_string(x) + " ";
    event("n=%u edges=%zu %d->%d: %s(%llu words)", n, es.size(), start, goal, s.c_str(), (unsigned long long)rng.draws);
    SIM_CHECK(!p.empty() && p.front() == start, "start", "the walk from %d to %d is: %s", start, goal, s.c_str());
    SIM_CHECK(p.back() == goal, "goal", "the walk from %d to %d is: %s", start, goal, s.c_str());
    std::set<int64_t> seen(p.begin(), p.end());
    SIM_CHECK(seen.size() == p.size(), "repeated-node", "the walk from %d to %d is: %s", start, goal, s.c_str());
    for (size_t i = 0; i + 1 < p.size(); i++)
      SIM_CHECK(std::find(out[p[i]].begin(), out[p[i]].end(), (int)p[i + 1]) != out[p[i]].end(), "no-such-edge", "the walk from %d to %d uses %lld -> %lld: %s", start, goal, (long long)p[i], (long long)p[i + 1], s.c_str());
    if (start == goal) { SIM_CHECK(p.size() == 1, "past-goal", "the walk from %d to itself is: %s", start, s.c_str()); }
    else nontrivial();
    if (rng.draws > p.size()) probe("loop_erased");
  }
}

// ------------------------------------------------------------------ C19
// The published generators (Vigna), written from their definition.
struct RefSplit {
  uint64_t x;
  explicit RefSplit(uint64_t s) : x(s) {}
  uint64_t operator()() {
    x += 11400714819323198485ull;
    uint64_t z = x;
    z = (z ^ z >> 30) * 13787848793156543929ull;
    z = (z ^ z >> 27) * 10723151780598845931ull;
    return z ^ z >> 31;
  }
};
struct RefShift128 {
  uint64_t s[2];
  explicit RefShift128(uint64_t seed) { RefSplit g(seed); for (auto& w : s) w = g(); }
  uint64_t operator()() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ a >> 18 ^ b >> 5;
    return s[1] + b;
  }
};
struct RefShift1024 {
  std::vector<uint64_t> s;   // a queue, oldest first: s[15] is the word written last
  explicit RefShift1024(uint64_t seed) { RefSplit g(seed); for (int i = 0; i < 16; i++) s.push_back(g()); std::rotate(s.begin(), s.begin() + 1, s.end()); }
  uint64_t operator()() {
    uint64_t a = s[15], b = s[0];
    s.erase(s.begin());
    b ^= b << 31;
    s.push_back(b ^ a ^ b >> 11 ^ a >> 30);
    return s[15] * 1181783497276652981ull;
  }
};
template <typename R, typename Ref> static void reseed_history(const char* name) {
  // model: an instance is a seed and the number of words taken since
  struct M { uint64_t seed, taken; };
  std::map<uint64_t, std::pair<Ref, std::vector<uint64_t>>> known;
  std::vector<R> inst;
  std::vector<M> model;
  static const uint64_t seeds[] = {0, 1, 42, ~(uint64_t)0, (uint64_t)1 << 63, 0x9E3779B97F4A7C15ull, (uint64_t)0 - 0x9E3779B97F4A7C15ull};
  auto seed = [&] { return choose(3) ? seeds[choose(7)] : ((uint64_t)choose(1u << 31) << 32) + choose(1u << 31); };
  auto expect = [&](const M& m) {
    auto it = known.find(m.seed);
    if (it == known.end()) it = known.emplace(m.seed, std::make_pair(Ref(m.seed), std::vector<uint64_t>())).first;
    auto& words = it->second.second;
    while (words.size() <= m.taken) words.push_back(it->second.first());
    return words[m.taken];
  };
  uint32_t ops = 1 + choose(24, "operations");
  inst.push_back(R(0)); model.push_back({0, 0});
  bool reseeded = false;
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t k = choose((uint32_t)inst.size());
    switch (choose(7, "operation")) {
      case 0: { uint64_t s = seed(); inst[k].seed(s); reseeded = reseeded || model[k].taken; model[k] = {s, 0}; event("%u seed %llu", k, (unsigned long long)s); break; }
      case 1: { uint64_t s = seed(); inst.push_back(R(s)); model.push_back({s, 0}); event("new %llu", (unsigned long long)s); break; }
      case 2: { unsigned long long z = choose(2) ? choose(40) : choose(3000); inst[k].discard(z); model[k].taken += z; event("%u discard %llu", k, z); break; }
      case 3: { R copy(inst[k]); inst.push_back(copy); M m = model[k]; model.push_back(m); event("%u copy", k); break; }
      case 4: { uint32_t j = choose((uint32_t)inst.size()); inst[k] = inst[j]; model[k] = model[j]; event("%u = %u", k, j); break; }
      default: {
        uint32_t c = 1 + choose(40);
        for (uint32_t j = 0; j < c; j++) {
          uint64_t w = inst[k](), e = expect(model[k]);
          SIM_CHECK(w == e, "wrong-word", "%s seeded with %llu: word %llu is %016llx instead of %016llx", name, (unsigned long long)model[k].seed, (unsigned long long)model[k].taken, (unsigned long long)w, (unsigned long long)e);
          model[k].taken++;
        }
        event("%u draw %u", k, c);
      }
    }
  }
  for (size_t k = 0; k < inst.size(); k++) {
    uint64_t w = inst[k](), e = expect(model[k]);
    event("%zu last %llx", k, (unsigned long long)w);
    SIM_CHECK(w == e, "wrong-word", "%s seeded with %llu: word %llu is %016llx instead of %016llx", name, (unsigned long long)model[k].seed, (unsigned long long)model[k].taken, (unsigned long long)w, (unsigned long long)e);
  }
  // different seeds give different streams
  uint64_t s1 = seed(), s2 = seed();
  if (s1 != s2) { R a(s1), b(s2); bool diff = false; for (int i = 0; i < 4; i++) diff = diff || a() != b(); SIM_CHECK(diff, "seed-ignored", "%s gives the same stream for seeds %llu and %llu", name, (unsigned long long)s1, (unsigned long long)s2); }
  if (reseeded) nontrivial();
}
SCENARIO(C19) {
  config().preempt = false;
  switch (choose(3, "generator")) {
    case 0: reseed_history<arc_helpers::SplitMix64PRNG, RefSplit>("SplitMix64PRNG"); break;
    case 1: reseed_history<arc_helpers::XorShift128PlusPRNG, RefShift128>("XorShift128PlusPRNG"); break;
    default: reseed_history<arc_helpers::XorShift1024StarPRNG, RefShift1024>("XorShift1024StarPRNG"); break;
  }
}

// ------------------------------------------------------------------ C56
// Samples of a multivariate normal distribution: covariance A A^T with an A of small integers, of full rank or not.
SCENARIO(C56) {
  config().preempt = false;
  uint32_t dim = 1 + choose(4, "dimensions"), rank = choose(4) ? dim : choose(dim + 1);
  bool many = choose(6) == 5;
  uint32_t n = many ? 3000 : 40;
  double scale = choose(3) ? 1.0 : choose(2) ? 1e-3 : 250.0;
  Eigen::VectorXd mean(dim);
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(dim, std::max(rank, 1u));
  for (uint32_t i = 0; i < dim; i++) mean[i] = ((double)choose(9) - 4) * (choose(3) ? 1.0 : 100.0);
  bool diagonal = choose(4) == 3;
  for (uint32_t i = 0; i < dim; i++)
    for (uint32_t j = 0; j < rank; j++) if (!diagonal || i == j) A(i, j) = ((double)choose(7) - 3) * scale;
  Eigen::MatrixXd cov = A * A.transpose();
  double top = std::max(cov.diagonal().maxCoeff(), 1e-300);
  event("%u dimensions, rank at most %u, largest variance %g", dim, rank, top);
  Stream rng(dim * 40);
  rng.what = "sampling"; rng.limit = 400ull * n * dim;
  arc_helpers::MultivariteGaussianDistribution dist(mean, cov);
  bool second = choose(3) == 2;
  arc_helpers::MultivariteGaussianDistribution other(mean * 2.0, cov * 4.0);    // another distribution used in between changes nothing
  Eigen::VectorXd sum = Eigen::VectorXd::Zero(dim);
  Eigen::MatrixXd prod = Eigen::MatrixXd::Zero(dim, dim), lag = prod;
  Eigen::VectorXd prev;
  // directions in which the distribution has no extent
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(cov);
  for (uint32_t k = 0; k < n; k++) {
    if (second && k % 7 == 3) other(rng);
    uint64_t d0 = rng.draws;
    Eigen::VectorXd x = dist(rng);
    (void)d0;
    SIM_CHECK(x.size() == (ssize_t)dim, "dimension", "a sample has %zd dimensions instead of %u", (ssize_t)x.size(), dim);
    Eigen::VectorXd y = x - mean;
    for (uint32_t i = 0; i < dim; i++) SIM_CHECK(std::isfinite(x[i]), "not-finite", "a sample is not finite");
    for (uint32_t i = 0; i < dim; i++)
      if (es.eigenvalues()[i] < 1e-9 * top) {
        double off = std::fabs(es.eigenvectors().col(i).dot(y));
        SIM_CHECK(off <= 2e-6 * std::sqrt(top) + 1e-9 * (1 + mean.cwiseAbs().maxCoeff()), "off-support", "a sample lies %g away from the hyperplane the covariance allows (largest deviation %g)", off, std::sqrt(top));
      }
    for (uint32_t i = 0; i < dim; i++) SIM_CHECK(std::fabs(y[i]) <= 40 * std::sqrt(cov(i, i)) + 2e-6 * std::sqrt(top) + 1e-9 * (1 + std::fabs(mean[i])), "too-far", "a sample lies %g from the mean, the deviation of that dimension is %g", y[i], std::sqrt(cov(i, i)));
    sum += y;
    prod += y * y.transpose();
    if (prev.size()) lag += prev * y.transpose();
    prev = y;
  }
  if (cov.diagonal().maxCoeff() > 0) nontrivial();
  if (many) {
    probe("distribution compared");
    double N = n;
    for (uint32_t i = 0; i < dim; i++) {
      double si = std::sqrt(cov(i, i)), slack = 1e-6 * std::sqrt(top) + 1e-9 * (1 + std::fabs(mean[i]));
      SIM_CHECK(std::fabs(sum[i] / N) <= 7 * si / std::sqrt(N) + slack, "mean", "the mean of %u samples is off by %g in dimension %u, the deviation is %g", n, sum[i] / N, i, si);
      for (uint32_t j = 0; j < dim; j++) {
        double v = cov(i, i) * cov(j, j), tol = 9 * std::sqrt((v + cov(i, j) * cov(i, j)) / N) + 1e-6 * top;
        SIM_CHECK(std::fabs(prod(i, j) / N - cov(i, j)) <= tol, "covariance", "the covariance of dimensions %u and %u is %g in %u samples, asked for was %g", i, j, prod(i, j) / N, n, cov(i, j));
        SIM_CHECK(std::fabs(lag(i, j) / N) <= 9 * std::sqrt(v / N) + 1e-6 * top, "dependent", "successive samples are correlated: %g in dimensions %u and %u", lag(i, j) / N, i, j);
      }
    }
  }
}

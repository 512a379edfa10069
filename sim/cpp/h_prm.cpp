// C13, C14: roadmap growth, refresh and queries under the simulated OpenMP runtime.
#include "sim.hpp"
#include <arc_utilities/simple_prm_planner.hpp>
#include <cmath>
#include <cstring>
using namespace sim;
#ifdef SERIAL_BUILD
#define BUILD(name) void serial_##name()
#else
// the same scenario against the code as it is built by default, without OpenMP (h_prm_serial.cpp)
#define BUILD(name) void serial_##name(); static void parallel_##name(); SCENARIO(name) { if (choose(4, "build") == 3) { probe("sequential_build"); serial_##name(); } else parallel_##name(); } static void parallel_##name()
#endif
using simple_prm_planner::SimpleGeometricPrmPlanner;

namespace {
struct S { double x = 0, y = 0; };
static bool operator==(const S& a, const S& b) { return a.x == b.x && a.y == b.y; }
typedef arc_dijkstras::Graph<S> G;
typedef std::function<double(const S&, const S&)> DistFn;
typedef std::function<bool(const S&, const S&)> EdgeFn;

struct World {
  bool grid = false, sym = true;
  uint32_t blocked = 0;  // edge-validity pattern
  double scale = 1;
  S state() const {
    S s;
    if (grid) { s.x = choose(4); s.y = choose(3); }
    else { s.x = (double)choose(1 << 24) / (1 << 20); s.y = (double)choose(1 << 24) / (1 << 20); }
    return s;
  }
  // a quasi-metric: triangle inequality holds in both forms
  double dist(const S& a, const S& b) const {
    if (sym) return scale * std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y));
    double up = std::max(b.x - a.x, 0.0) + std::max(b.y - a.y, 0.0), down = std::max(a.x - b.x, 0.0) + std::max(a.y - b.y, 0.0);
    return scale * (1.5 * up + down);
  }
  bool edge_ok(const S& a, const S& b) const {  // symmetric
    if (!blocked) return true;
    double m = (a.x + b.x) * 7.3 + (a.y + b.y) * 3.1;
    return ((uint32_t)(int64_t)(m * 16) * 2654435761u >> 16) % 4 >= blocked;
  }
  DistFn dfn() const { World w = *this; return [w](const S& a, const S& b) { return w.dist(a, b); }; }
  EdgeFn efn() const { World w = *this; return [w](const S& a, const S& b) { return w.edge_ok(a, b); }; }
};
}  // namespace
static World make_world() {
  World w;
  w.grid = choose(2);
  w.sym = choose(2) == 0;
  w.blocked = choose(4) ? choose(3) : 0;
  return w;
}
static void team_setup() {
  config().omp_max = 1 + choose(4, "max threads");
  config().omp_dynamic = choose(3) != 0;
}
namespace {
struct E2 { int64_t to; double w; int valid; };
static bool operator==(const E2& a, const E2& b) { return a.to == b.to && memcmp(&a.w, &b.w, 8) == 0 && a.valid == b.valid; }
struct Snap {
  std::vector<S> val;
  std::vector<double> d;
  std::vector<std::vector<E2>> out, in;
};
}  // namespace
static Snap snap(const G& g) {
  Snap s;
  for (auto& n : g.getNodes()) {
    s.val.push_back(n.getValue());
    s.d.push_back(n.getDistance());
    std::vector<E2> o, i;
    for (auto& e : n.getOutEdges()) o.push_back({e.getToIndex(), e.getWeight(), e.isValid() ? 1 : e.isInvalid() ? 2 : 0});
    for (auto& e : n.getInEdges()) i.push_back({e.getFromIndex(), e.getWeight(), e.isValid() ? 1 : e.isInvalid() ? 2 : 0});
    s.out.push_back(o);
    s.in.push_back(i);
  }
  return s;
}
static bool same(const Snap& a, const Snap& b) {
  if (a.val.size() != b.val.size() || a.d != b.d) return false;
  for (size_t i = 0; i < a.val.size(); i++) if (!(a.val[i] == b.val[i]) || !(a.out[i] == b.out[i]) || !(a.in[i] == b.in[i])) return false;
  return true;
}
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

// what a roadmap must look like after adding the given states in order to "base"
namespace {
struct Add { S s; bool to_new; };  // to_new: neighbours are ranked by distance roadmap -> state
}  // namespace
static void check_grown(const World& w, const Snap& base, const std::vector<Add>& adds, const G& g, size_t K, bool dup, bool declared_sym) {
  size_t n0 = base.val.size();
  std::vector<S> want = base.val;
  std::vector<int> dir(n0, 0);
  for (auto& a : adds) {
    bool present = false;
    if (!dup) for (auto& v : want) if (w.dist(v, a.s) == 0.0) present = true;
    if (present) { probe("already present"); continue; }
    want.push_back(a.s);
    dir.push_back(a.to_new ? 1 : 2);
  }
  Snap now = snap(g);
  SIM_CHECK(now.val.size() == want.size(), "wrong-node-count", "the roadmap holds %zu states instead of %zu", now.val.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) SIM_CHECK(now.val[i] == want[i], "wrong-node", "state %zu of the roadmap is not the one sampled as number %zu", i, i);
  std::map<std::pair<int64_t, int64_t>, double> e;
  for (size_t i = 0; i < want.size(); i++) {
    std::vector<E2> o, in;
    for (auto& x : now.out[i]) if (x.to < (int64_t)n0 && i < n0) o.push_back(x);
    for (auto& x : now.in[i]) if (x.to < (int64_t)n0 && i < n0) in.push_back(x);
    if (i < n0) SIM_CHECK(o == base.out[i] && in == base.in[i], "old-edge-changed", "growing the roadmap changed edges among the states it had before");
    for (auto& x : now.out[i]) {
      SIM_CHECK(x.to >= 0 && x.to < (int64_t)want.size() && x.to != (int64_t)i, "bad-edge", "edge %zu -> %ld", i, (long)x.to);
      if (i < n0 && x.to < (int64_t)n0) continue;
      SIM_CHECK(e.insert({{(int64_t)i, x.to}, x.w}).second, "edge-twice", "edge %zu -> %ld was added twice", i, (long)x.to);
      int cnt = 0;
      for (auto& y : now.in[x.to]) if (y.to == (int64_t)i) { cnt++; SIM_CHECK(bits(y.w, x.w), "two-sided", "edge %zu -> %ld has weight %g at its source and %g at its target", i, (long)x.to, x.w, y.w); }
      SIM_CHECK(cnt == 1, "two-sided", "edge %zu -> %ld is recorded %d times at its target", i, (long)x.to, cnt);
    }
  }
  size_t in_new = 0;
  for (size_t i = 0; i < want.size(); i++) for (auto& x : now.in[i]) if (!(i < n0 && x.to < (int64_t)n0)) in_new++;
  SIM_CHECK(in_new == e.size(), "two-sided", "%zu incoming and %zu outgoing edges were added", in_new, e.size());
  for (size_t i = n0; i < want.size(); i++) {
    std::vector<double> d(i), sd;
    for (size_t j = 0; j < i; j++) d[j] = dir[i] == 1 ? w.dist(want[j], want[i]) : w.dist(want[i], want[j]);
    sd = d;
    std::sort(sd.begin(), sd.end());
    size_t k = std::min(K, i);
    double kth = k ? sd[k - 1] : -1;
    size_t closer = 0, tie_edges = 0, tie_invalid = 0;
    for (size_t j = 0; j < i; j++) {
      bool has = e.count({(int64_t)i, (int64_t)j}), back = e.count({(int64_t)j, (int64_t)i});
      bool ok = w.edge_ok(want[j], want[i]);
      SIM_CHECK(has == back, "one-way-link", "states %zu and %zu are linked in one direction only", j, i);
      if (has) {
        SIM_CHECK(ok, "invalid-edge", "states %zu and %zu are linked although the edge is not valid", j, i);
        SIM_CHECK(d[j] <= kth, "not-nearest", "state %zu is linked to state %zu at distance %g although its %zu nearest states are within %g", i, j, d[j], k, kth);
        double in_w = e[{(int64_t)j, (int64_t)i}], out_w = e[{(int64_t)i, (int64_t)j}];
        double want_in = declared_sym ? d[j] : w.dist(want[j], want[i]), want_out = declared_sym ? d[j] : w.dist(want[i], want[j]);
        SIM_CHECK(bits(in_w, want_in), "wrong-weight", "edge %zu -> %zu has weight %.17g instead of %.17g", j, i, in_w, want_in);
        SIM_CHECK(bits(out_w, want_out), "wrong-weight", "edge %zu -> %zu has weight %.17g instead of %.17g", i, j, out_w, want_out);
      }
      if (k && d[j] < kth) {
        closer++;
        SIM_CHECK(has || !ok, "missing-link", "state %zu is not linked to state %zu, one of its %zu nearest", i, j, k);
      } else if (k && d[j] == kth) { tie_edges += has; tie_invalid += !ok; }
    }
    if (k) {
      size_t room = k - closer;
      SIM_CHECK(tie_edges <= room && tie_edges + tie_invalid >= room, "wrong-link-count", "state %zu is linked to %zu of the states at its %zu-nearest distance (room for %zu, %zu of them invalid)", i, tie_edges, k, room, tie_invalid);
    }
  }
}

static G build(const World& w, uint32_t maxn, size_t K, bool dup, bool declared_sym, std::vector<Add>* added, G* start = nullptr) {
  uint32_t checks = choose(maxn + 1, "samples");
  uint32_t asked = 0, sampled = 0, invalid_mod = choose(3) ? 0 : 1 + choose(3);
  bool stopped = false;
  std::vector<S> all;
  std::function<S()> sample = [&] {
    SIM_CHECK(!stopped, "sampled-after-stop", "a state was sampled after the termination check asked to stop");
    sampled++;
    S s = (!all.empty() && choose(4) == 3) ? all[choose((uint32_t)all.size())] : w.state();
    all.push_back(s);
    return s;
  };
  size_t last_valid_asked = 0;
  std::function<bool(const S&)> valid = [&](const S& s) {
    last_valid_asked = sampled;
    bool ok = !invalid_mod || ((int64_t)(s.x * 3 + s.y * 5)) % (invalid_mod + 1) != 0;
    if (ok) added->push_back({s, true});
    return ok;
  };
  std::function<bool()> stop = [&] { stopped = ++asked > checks; return stopped; };
  if (declared_sym && !dup && choose(2)) {
    if (start) { SimpleGeometricPrmPlanner::ExtendRoadMap<S>(*start, sample, w.dfn(), valid, w.efn(), stop, K); return *start; }
    return SimpleGeometricPrmPlanner::BuildRoadMap<S>(sample, w.dfn(), valid, w.efn(), stop, K);
  }
  if (start) {
    SimpleGeometricPrmPlanner::ExtendRoadMap<S>(*start, sample, w.dfn(), valid, w.efn(), stop, K, declared_sym, dup);
    return *start;
  }
  return SimpleGeometricPrmPlanner::BuildRoadMap<S>(sample, w.dfn(), valid, w.efn(), stop, K, declared_sym, dup);
}

// a random source that gives up: a walk that cannot reach its goal has no other end
namespace {
struct GaveUp {};
struct Words {
  typedef uint64_t result_type;
  uint32_t left = 3000;
  uint64_t x;
  Words() : x(choose(1 << 20)) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() {
    if (!left--) throw GaveUp();
    x += 0x9E3779B97F4A7C15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
}  // namespace

BUILD(C13) {
  team_setup();
  World w = make_world();
  size_t K = 1 + choose(5, "K");
  bool dup = choose(3) == 2, declared = w.sym && choose(2) == 0;
  std::vector<Add> added;
  G g = build(w, 9, K, dup, declared, &added);
  { NoPreempt np; event("built %zu nodes from %zu states K=%zu", g.getNodes().size(), added.size(), K); check_grown(w, Snap(), added, g, K, dup, declared); }
  uint32_t steps = choose(3, "steps");
  for (uint32_t i = 0; i < steps; i++) {
    Snap base = snap(g);
    added.clear();
    if (choose(3) == 0) {
      build(w, 4, K, dup, declared, &added, &g);
    } else {
      uint32_t kind = choose(4, "query");
      bool plain = declared && !dup && choose(2);   // what a caller gets who says nothing about either
      std::vector<S> starts;
      uint32_t ns = kind == 0 ? choose(4) : 1;
      for (uint32_t k = 0; k < ns; k++) starts.push_back(w.state());
      S goal = w.state();
      if (kind && w.dist(starts[0], goal) == 0) { event("start is goal"); continue; }
      for (auto& s : starts) added.push_back({s, false});
      added.push_back({goal, true});
      event("query %u from %zu starts", kind, starts.size());
      Words words;
      if (kind == 3 && (dup || w.blocked)) kind = 1;   // (a walk has no way on from a state without links)
      if (kind == 0 && plain) SimpleGeometricPrmPlanner::QueryPathAndAddNodesMultiStartSingleGoal<S>(starts, goal, g, w.efn(), w.dfn(), K);
      else if (kind == 0) SimpleGeometricPrmPlanner::QueryPathAndAddNodesMultiStartSingleGoal<S>(starts, goal, g, w.efn(), w.dfn(), K, declared, dup);
      else if (kind == 3) { try { SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<S>(starts[0], goal, words, g, w.efn(), w.dfn(), K, declared); } catch (const GaveUp&) {} }
      else if (plain && kind == 1) SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goal, g, w.efn(), w.dfn(), K);
      else if (plain) SimpleGeometricPrmPlanner::LazyQueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goal, g, w.efn(), w.dfn(), K);
      else if (kind == 1) SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goal, g, w.efn(), w.dfn(), K, declared, dup, choose(2));
      else SimpleGeometricPrmPlanner::LazyQueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goal, g, w.efn(), w.dfn(), K, declared, dup, choose(2));
    }
    NoPreempt np;
    check_grown(w, base, added, g, K, dup, declared);
  }
}

// cheapest cost between all pairs over the edges the query may use
static std::vector<double> costs_to(const G& g, size_t goal, const World* lazy) {
  size_t n = g.getNodes().size();
  std::vector<double> c(n, INFINITY);
  c[goal] = 0;
  for (size_t it = 0; it <= n; it++)
    for (size_t i = 0; i < n; i++)
      for (auto& e : g.getNodes()[i].getOutEdges()) {
        size_t j = e.getToIndex();
        const S &a = g.getNodes()[i].getValue(), &b = g.getNodes()[j].getValue();
        double wt = lazy ? (lazy->edge_ok(a, b) ? lazy->dist(a, b) : INFINITY) : e.getWeight();
        c[i] = std::min(c[i], c[j] + wt);
      }
  return c;
}
static bool near_eq(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }

static void check_path(const G& full, const std::pair<std::vector<S>, double>& r, const std::vector<S>& starts, const S& goal, const World* lazy, const char* kind) {
  size_t n = full.getNodes().size();
  auto idx = [&](const S& s) { std::vector<size_t> v; for (size_t i = 0; i < n; i++) if (full.getNodes()[i].getValue() == s) v.push_back(i); return v; };
  double best = INFINITY;
  for (size_t gi : idx(goal)) { auto c = costs_to(full, gi, lazy); for (auto& s : starts) for (size_t si : idx(s)) best = std::min(best, c[si]); }
  event("%s query: cost %.12g best %.12g, %zu states", kind, r.second, best, r.first.size());
  if (std::isinf(best)) {
    SIM_CHECK(std::isinf(r.second) && r.first.empty(), "path-from-nowhere", "the %s query returned a path of cost %g although the goal cannot be reached", kind, r.second);
    probe("unreachable");
    return;
  }
  SIM_CHECK(near_eq(r.second, best), "not-minimal", "the %s query reports cost %.12g but the cheapest path costs %.12g", kind, r.second, best);
  SIM_CHECK(!r.first.empty() && r.first.back() == goal, "wrong-end", "the path of the %s query does not end at the goal", kind);
  bool st = false;
  for (auto& s : starts) st = st || r.first.front() == s;
  SIM_CHECK(st, "wrong-start", "the path of the %s query does not begin at a start state", kind);
  double sum = 0;
  for (size_t k = 0; k + 1 < r.first.size(); k++) {
    const S &a = r.first[k], &b = r.first[k + 1];
    if (a == b) continue;  // a start that is itself the goal
    double wt = INFINITY;
    for (size_t i : idx(a)) for (auto& e : full.getNodes()[i].getOutEdges()) if (full.getNodes()[e.getToIndex()].getValue() == b) wt = std::min(wt, lazy ? (lazy->edge_ok(a, b) ? lazy->dist(a, b) : INFINITY) : e.getWeight());
    SIM_CHECK(!std::isinf(wt), "no-such-edge", "the path of the %s query uses an edge that does not exist or is infinite", kind);
    sum += wt;
  }
  SIM_CHECK(near_eq(sum, r.second), "wrong-cost", "the path of the %s query costs %.12g but %.12g is reported", kind, sum, r.second);
}

BUILD(C14) {
  team_setup();
  World w = make_world();
  size_t K = 1 + choose(5, "K");
  std::vector<Add> added;
  G g = build(w, 9, K, false, false, &added);
  // extra links, also double ones
  size_t n = g.getNodes().size();
  if (n >= 2)
    for (uint32_t i = choose(4); i > 0; i--) {
      int64_t a = choose((uint32_t)n), b = choose((uint32_t)n);
      if (a != b) g.addEdgeBetweenNodes(a, b, w.dist(g.getNode(a).getValue(), g.getNode(b).getValue()));
    }
  if (n && choose(3) == 2) g.getNode(choose((uint32_t)n)).setDistance(7);
  uint32_t rounds = choose(3, "refreshes");
  for (uint32_t r = 0; r < rounds; r++) {
    World w2 = w;
    w2.blocked = choose(4);
    w2.scale = 1 + choose(3);
    Snap before = snap(g);
    bool broken = n && choose(8) == 7;
    G bad = g;
    if (broken) {
      arc_dijkstras::GraphEdge e(choose((uint32_t)n), (int64_t)n + choose(2), 1.0);
      bad.getNode(e.getFromIndex()).addOutEdge(e);
      bool threw = false;
      try { SimpleGeometricPrmPlanner::UpdateRoadMapEdges<S>(bad, w2.efn(), w2.dfn()); } catch (const std::invalid_argument&) { threw = true; }
      SIM_CHECK(threw, "bad-linkage-accepted", "a roadmap with a dangling edge was refreshed");
      continue;
    }
    SimpleGeometricPrmPlanner::UpdateRoadMapEdges<S>(g, w2.efn(), w2.dfn());
    NoPreempt np;
    Snap now = snap(g);
    event("refreshed %zu nodes", n);
    SIM_CHECK(now.val.size() == n && now.d == before.d, "refresh-changed-nodes", "refreshing changed the states of the roadmap");
    for (size_t i = 0; i < n; i++) {
      SIM_CHECK(now.val[i] == before.val[i], "refresh-changed-nodes", "refreshing changed the states of the roadmap");
      SIM_CHECK(now.out[i].size() == before.out[i].size() && now.in[i].size() == before.in[i].size(), "refresh-changed-links", "refreshing changed the number of edges");
      for (int side = 0; side < 2; side++)
        for (size_t k = 0; k < (side ? now.in[i] : now.out[i]).size(); k++) {
          auto &x = side ? now.in[i][k] : now.out[i][k], &y = side ? before.in[i][k] : before.out[i][k];
          SIM_CHECK(x.to == y.to && x.valid == y.valid, "refresh-changed-links", "refreshing changed the ends of an edge");
          const S &a = now.val[side ? x.to : i], &b = now.val[side ? i : x.to];
          double want = w2.edge_ok(a, b) ? w2.dist(a, b) : INFINITY;
          SIM_CHECK(bits(x.w, want), "stale-weight", "after refreshing the %s record of edge %zu/%ld holds %g instead of %g", side ? "incoming" : "outgoing", i, (long)x.to, x.w, want);
        }
    }
    w = w2;
  }
  // a random walk between two states of the roadmap, over finite edges (the walk takes any edge)
  bool finite = w.blocked == 0;   // (and a way on from every state)
  if (n > 1) for (auto& o : snap(g).out) finite = finite && !o.empty();
  for (auto& o : snap(g).out) for (auto& e : o) finite = finite && !std::isinf(e.w);
  if (finite && choose(3) == 2) {
    S a = w.state(), b = w.state();
    G c = g;
    Words words;
    bool sym = w.sym && choose(2);
    try {
      auto r = SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<S>(a, b, words, c, w.efn(), w.dfn(), K, sym);
      NoPreempt np;
      event("random walk over %zu states costs %.12g", r.first.size(), r.second);
      SIM_CHECK(!r.first.empty() && r.first.front() == a, "wrong-start", "the path of the random walk does not begin at the start state");
      SIM_CHECK(r.first.back() == b, "wrong-end", "the path of the random walk does not end at the goal");
      double sum = 0;
      for (size_t k = 0; k + 1 < r.first.size(); k++) {
        bool found = false;
        for (auto& nd : c.getNodes()) if (nd.getValue() == r.first[k]) for (auto& e : nd.getOutEdges()) found = found || c.getNode(e.getToIndex()).getValue() == r.first[k + 1];
        SIM_CHECK(found, "no-such-edge", "the path of the random walk uses an edge that does not exist");
        sum += w.dist(r.first[k], r.first[k + 1]);
      }
      SIM_CHECK(near_eq(sum, r.second), "wrong-cost", "the path of the random walk costs %.12g but %.12g is reported", sum, r.second);
      probe("random_walk");
    } catch (const GaveUp&) { probe("random_walk_without_end"); }
  }
  // queries on a read-only roadmap
  uint32_t q = choose(3, "queries");
  for (uint32_t k = 0; k < q; k++) {
    Snap before = snap(g);
    std::vector<S> starts, goals;
    uint32_t kind = choose(4, "kind");
    uint32_t ns = kind < 2 ? 1 + choose(3) : 1, ng = kind == 0 ? 1 + choose(3) : 1;
    bool inside = n && choose(3) == 2;
    for (uint32_t i = 0; i < ns; i++) starts.push_back(inside && choose(2) ? g.getNode(choose((uint32_t)n)).getValue() : w.state());
    for (uint32_t i = 0; i < ng; i++) goals.push_back(inside && choose(2) ? g.getNode(choose((uint32_t)n)).getValue() : w.state());
    if (kind >= 2 && starts[0] == goals[0]) continue;
    const G& ro = g;
    std::pair<std::vector<S>, double> r;
    auto d = w.dfn();
    auto e = w.efn();
    bool lim = choose(2);
    switch (kind) {
      case 0: r = SimpleGeometricPrmPlanner::QueryPathMultiStartMultiGoal<S>(starts, goals, ro, e, d, K, false); break;
      case 1: r = SimpleGeometricPrmPlanner::QueryPathMultiStartSingleGoal<S>(starts, goals[0], ro, e, d, K, false); break;
      case 2: r = SimpleGeometricPrmPlanner::QueryPathSingleStartSingleGoal<S>(starts[0], goals[0], ro, e, d, K, false, false, lim); break;
      default: r = SimpleGeometricPrmPlanner::LazyQueryPathSingleStartSingleGoal<S>(starts[0], goals[0], ro, e, d, K, false, false, lim); break;
    }
    SIM_CHECK(same(before, snap(g)), "roadmap-changed", "a query on a read-only roadmap changed it");
    if (w.grid) { probe("tie query"); continue; }  // with ties the links of the added states are not unique
    // the roadmap the query had to search: base plus starts plus goal, built without threads
    int om = config().omp_max;
    config().omp_max = 1;
    std::vector<std::pair<double, size_t>> per;
    G best;
    for (size_t i = 0; i < goals.size(); i++) {
      G c = g;
      if (kind < 2) SimpleGeometricPrmPlanner::QueryPathAndAddNodesMultiStartSingleGoal<S>(starts, goals[i], c, e, d, K, false);
      else if (kind == 2) SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goals[i], c, e, d, K, false, false, lim);
      else SimpleGeometricPrmPlanner::LazyQueryPathAndAddNodesSingleStartSingleGoal<S>(starts[0], goals[i], c, e, d, K, false, false, lim);
      double cost = INFINITY;
      for (size_t a = 0; a < c.getNodes().size(); a++)
        if (c.getNodes()[a].getValue() == goals[i]) {
          auto cs = costs_to(c, a, kind == 3 ? &w : nullptr);
          for (size_t b = 0; b < cs.size(); b++) for (auto& s : starts) if (c.getNodes()[b].getValue() == s) cost = std::min(cost, cs[b]);
        }
      per.push_back({cost, i});
      bool mine = !r.first.empty() ? r.first.back() == goals[i] : i == 0;
      if (mine) best = c;
    }
    config().omp_max = om;
    NoPreempt np;
    double least = INFINITY;
    for (auto& p : per) least = std::min(least, p.first);
    SIM_CHECK(near_eq(r.second, least) || (std::isinf(least) && std::isinf(r.second)), "not-minimal", "the query over %zu goals reports cost %.12g but the cheapest path costs %.12g", goals.size(), r.second, least);
    S end = goals[0];
    if (!r.first.empty()) {
      bool known = false;
      for (auto& x : goals) known = known || r.first.back() == x;
      SIM_CHECK(known, "wrong-end", "the path does not end at a goal");
      end = r.first.back();
    }
    if (!r.first.empty() || goals.size() == 1) check_path(best, r, starts, end, kind == 3 ? &w : nullptr, kind == 0 ? "multi-goal" : kind == 1 ? "multi-start" : kind == 2 ? "single" : "lazy");
  }
}

// C41: every search answers with a cheapest real path on the graph as it is then, alone or next to others, or passes on what went wrong.
#include "sim.hpp"
#include <arc_utilities/dijkstras.hpp>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_astar_planner.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
using namespace sim;
using namespace arc_dijkstras;
typedef Graph<std::string> G;
typedef SimpleDijkstrasAlgorithm<std::string> Dij;
typedef SimpleGraphAstar<std::string> Ast;
static const double INF = std::numeric_limits<double>::infinity();
struct Broken : std::runtime_error { Broken() : std::runtime_error("the user's function failed") {} };

struct Edge { int64_t a, b; double w; int valid; };
struct World { G g; std::vector<Edge> e; size_t n = 0; };
static std::string name_of(int64_t i) { return "the node with the number " + std::to_string(i); }
static int64_t number_of(const std::string& s) { return atoll(s.c_str() + 25); }

// cheapest costs to one node (or from one) over the edges that count
static std::vector<double> costs(const World& w, int64_t at, bool to, const std::function<double(const Edge&)>& cost) {
  std::vector<double> d(w.n, INF);
  d[(size_t)at] = 0;
  for (size_t r = 0; r < w.n; r++) for (auto& e : w.e) {
    size_t x = (size_t)(to ? e.b : e.a), y = (size_t)(to ? e.a : e.b);
    double c = cost(e);
    if (d[x] + c < d[y]) d[y] = d[x] + c;
  }
  return d;
}
static double edge_cost(const Edge& e) { return e.valid == EDGE_VALIDITY::INVALID ? INF : e.w; }
static double some_weight() { return choose(8, "weight") == 7 ? INF : choose(2) ? choose(10) : choose(10) * 0.25 + choose(4) / 16777216.0; }

struct Path { std::vector<int64_t> p; double cost; };
static void judge(const World& w, const Path& r, int64_t s, int64_t g, const std::function<double(const Edge&)>& cost, const char* what) {
  double best = costs(w, s, false, cost)[(size_t)g];
  SIM_CHECK(r.cost == best, "cost", "%s says the way from %ld to %ld costs %g, it costs %g", what, (long)s, (long)g, r.cost, best);
  if (best == INF) { SIM_CHECK(r.p.empty(), "path", "%s gives a path of %zu nodes to a goal that cannot be reached", what, r.p.size()); probe("unreachable"); return; }
  SIM_CHECK(r.p.size() >= 1 && r.p.front() == s && r.p.back() == g, "path", "%s gives a path that does not lead from %ld to %ld", what, (long)s, (long)g);
  double sum = 0;
  for (size_t i = 0; i + 1 < r.p.size(); i++) {
    double c = INF;
    for (auto& e : w.e) if (e.a == r.p[i] && e.b == r.p[i + 1]) c = std::min(c, cost(e));
    SIM_CHECK(c < INF, "path", "%s goes from %ld to %ld, which it cannot", what, (long)r.p[i], (long)r.p[i + 1]);
    sum += c;
  }
  SIM_CHECK(sum == best, "path", "%s gives a path that costs %g and not %g", what, sum, best);
}

// the user's side of one search
struct User {
  int64_t start_reads;
  uint32_t calls = 0, fail_at = 0;
  bool slow = false;
  bool failed = false;
  void call() {
    calls++;
    if (slow && choose(4) == 0) { NoPreempt np; advance(1000000 * (int64_t)(1 + choose(500))); }
    if (fail_at && calls == fail_at) { failed = true; alloc_arm(false); fault("user_exception"); throw Broken(); }
  }
};
struct Outcome { bool done = false, oom = false, broken = false; std::string err; };
static Outcome attempt(bool arm, const std::function<void()>& f) {
  Outcome t;
  if (arm) { alloc_fault_clear(); alloc_faults(25); }
  try { if (arm) alloc_arm(true); f(); alloc_arm(false); t.done = true; }
  catch (const std::bad_alloc&) { alloc_arm(false); t.oom = true; }
  catch (const Broken&) { alloc_arm(false); t.broken = true; }
  catch (const std::exception& x) { alloc_arm(false); t.err = x.what(); }
  if (arm) {
    alloc_faults(0);
    if (t.oom) { SIM_CHECK(alloc_fault_fired(), "bad-alloc", "out of memory was reported although there was enough"); probe("out of memory"); }
    else SIM_CHECK(!t.done || !alloc_fault_fired(), "swallowed", "a failed allocation was not reported");
  }
  return t;
}

// a source of chance that can fail as well
struct Chance {
  typedef uint64_t result_type;
  User* u; uint64_t x;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  uint64_t operator()() { u->call(); uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
static void search(const World& w, bool arm, bool alone, bool failing) {
  if (w.n < 2) return;
  no_preempt(true);
  const int64_t s = choose((uint32_t)w.n, "start"), g = (s + 1 + (int64_t)choose((uint32_t)w.n - 1)) % (int64_t)w.n;
  const uint32_t kind = choose(7, "search");
  const bool dup = choose(2);
  User u;
  u.slow = alone && choose(3) == 2;
  if (failing && choose(2)) u.fail_at = 1 + choose(12);
  // an answer of the user's validity and distance functions for every pair of nodes, this time
  std::map<std::pair<int64_t, int64_t>, double> own;
  bool ask_user = kind == 2 || kind == 3;
  if (ask_user) for (auto& e : w.e) if (!own.count(std::make_pair(e.a, e.b))) own[std::make_pair(e.a, e.b)] = choose(5) == 4 ? INF : choose(10) * 0.5;
  std::function<double(const Edge&)> cost = [&](const Edge& e) { return ask_user ? own[std::make_pair(e.a, e.b)] : edge_cost(e); };
  // a heuristic that never says too much; the last search needs one that is consistent as well
  std::vector<double> h = costs(w, g, true, cost);
  uint32_t hk = choose(4, "heuristic");
  for (double& x : h) {
    if (x == INF) x = hk == 0 ? 0 : 1000;
    if (hk == 3 && kind != 5) x *= choose(5) * 0.25;  // admissible, but one node may say much and its neighbour nothing
    else x *= hk == 0 ? 0 : hk == 1 ? 1 : 0.5;
  }
  auto hf = [&](const std::string& a, const std::string& b) { u.call(); if (number_of(b) != g) violation("heuristic", "the heuristic was asked for another goal"); return h[(size_t)number_of(a)]; };
  no_preempt(false);
  Path r;
  const char* what = "";
  int64_t t0 = mono_ns();
  double took = -1;
  size_t explored = 0;
  Outcome t = attempt(arm, [&] {
    switch (kind) {
      case 0: {
        what = "Dijkstra";
        auto d = Dij::PerformDijkstrasAlgorithm(w.g, g);  // the way from every node to this one
        NoPreempt np;
        alloc_arm(false);
        // invalid edges count here: only weights do
        std::function<double(const Edge&)> all = [](const Edge& e) { return e.w; };
        std::vector<double> best = costs(w, g, true, all);
        SIM_CHECK(d.second.first.size() == w.n && d.second.second.size() == w.n && d.first.getNodes().size() == w.n, "dijkstra", "Dijkstra's answer has another size");
        for (size_t i = 0; i < w.n; i++) {
          SIM_CHECK(d.second.second[i] == best[i] && d.first.getNode((int64_t)i).getDistance() == best[i], "cost", "Dijkstra says %g (%g) from node %zu to %ld, it is %g", d.second.second[i], d.first.getNode((int64_t)i).getDistance(), i, (long)g, best[i]);
          int64_t next = d.second.first[i];
          if ((int64_t)i == g) SIM_CHECK(next == g, "dijkstra", "the goal of Dijkstra leads to %ld", (long)next);
          else if (best[i] == INF) SIM_CHECK(next == -1, "dijkstra", "Dijkstra leads from %zu to %ld although the goal cannot be reached", i, (long)next);
          else {
            bool ok = false;
            for (auto& e : w.e) ok = ok || (e.a == (int64_t)i && e.b == next && e.w + best[(size_t)next] == best[i]);
            SIM_CHECK(ok, "dijkstra", "Dijkstra leads from %zu to %ld, which is not on a cheapest way", i, (long)next);
          }
        }
        std::vector<uint8_t> buf(choose(3), 1);
        size_t at = buf.size();
        uint64_t wrote = Dij::SerializeDijstrasResult(d, buf, arc_utilities::SerializeString<char>);
        SIM_CHECK(wrote == buf.size() - at, "stored", "%zu bytes were stored, it says %zu", buf.size() - at, (size_t)wrote);
        buf.resize(buf.size() + choose(3));
        auto back = Dij::DijstrasResult(buf, at, arc_utilities::DeserializeString<char>);
        SIM_CHECK(back.second == wrote && back.first.second == d.second && back.first.first.getNodes().size() == w.n, "stored", "the stored answer of Dijkstra reads differently");
        for (size_t i = 0; i < w.n; i++) SIM_CHECK(back.first.first.getNode((int64_t)i).getDistance() == best[i] && back.first.first.getNode((int64_t)i).getOutEdges() == w.g.getNode((int64_t)i).getOutEdges(), "stored", "the graph stored with the answer reads differently");
        break;
      }
      case 1: { what = "A*"; auto x = Ast::PerformAstar(w.g, s, g, hf, dup); r.p = x.first; r.cost = x.second; break; }
      case 2: {
        what = "lazy A* on edges";
        std::function<bool(const G&, const GraphEdge&)> ok = [&](const G& gg, const GraphEdge& e) { u.call(); if (&gg != &w.g) violation("graph", "another graph was handed to the user"); return own.at(std::make_pair(e.getFromIndex(), e.getToIndex())) < INF; };
        std::function<double(const G&, const GraphEdge&)> dist = [&](const G&, const GraphEdge& e) { u.call(); return own.at(std::make_pair(e.getFromIndex(), e.getToIndex())); };
        auto x = Ast::PerformLazyAstar(w.g, s, g, ok, dist, hf, dup);
        r.p = x.first; r.cost = x.second;
        break;
      }
      case 3: {
        what = "lazy A* on values";
        auto key = [](const std::string& a, const std::string& b) { return std::make_pair(number_of(a), number_of(b)); };
        std::function<bool(const std::string&, const std::string&)> ok = [&](const std::string& a, const std::string& b) { u.call(); return own.at(key(a, b)) < INF; };
        std::function<double(const std::string&, const std::string&)> dist = [&](const std::string& a, const std::string& b) { u.call(); return own.at(key(a, b)); };
        auto x = Ast::PerformLazyAstar(w.g, s, g, ok, dist, hf, dup);
        r.p = x.first; r.cost = x.second;
        break;
      }
      case 4: {
        what = "generic A*";
        auto best = [&](int64_t a, int64_t b) { double c = INF; for (auto& e : w.e) if (e.a == a && e.b == b) c = std::min(c, cost(e)); return c; };
        auto x = arc_helpers::GenericAstarSearch(s, g,
          [&](const int64_t a) { u.call(); std::vector<int64_t> c; for (auto& e : w.e) if (e.a == a) c.push_back(e.b); return c; },
          [&](const int64_t a, const int64_t b) { u.call(); return best(a, b) < INF; },
          [&](const int64_t a, const int64_t b) { u.call(); return best(a, b); },
          [&](const int64_t a, const int64_t) { u.call(); return h[(size_t)a]; }, dup);
        r.p = x.first; r.cost = x.second;
        break;
      }
      case 6: {  // only where the goal can be reached from wherever the walk can get to
        std::function<double(const Edge&)> one = [](const Edge&) { return 1.0; };
        std::vector<double> from, to;
        { NoPreempt np; alloc_arm(false); from = costs(w, s, false, one); to = costs(w, g, true, one); alloc_arm(arm); }
        for (size_t i = 0; i < w.n; i++) if (from[i] < INF && to[i] == INF) return;
        if (to[(size_t)s] == INF) return;
        what = "the random walk";
        Chance rng{&u, 1 + (uint64_t)choose(100000)};
        r.p = GraphRandomWalk<std::string>::PerformRandomWalk(w.g, s, g, rng);
        break;
      }
      default: {
        what = "the A* planner";
        auto best = [&](int64_t a, int64_t b) { double c = INF; for (auto& e : w.e) if (e.a == a && e.b == b) c = std::min(c, cost(e)); return c; };
        auto x = simple_astar_planner::SimpleAStarPlanner<int64_t>::Plan(s,
          [&](const int64_t& a) { u.call(); std::vector<int64_t> c; for (auto& e : w.e) if (e.a == a && cost(e) < INF) c.push_back(e.b); return c; },
          [&](const int64_t& a, const int64_t& b) { u.call(); return best(a, b); },
          [&](const int64_t& a) { u.call(); return h[(size_t)a]; },
          [&](const int64_t& a) { u.call(); return a == g; });
        r.p = x.first;
        took = x.second.at("planning time");
        explored = (size_t)x.second.at("nodes explored");
        if (r.p.empty()) r.cost = INF;
        else { r.cost = 0; for (size_t i = 0; i + 1 < r.p.size(); i++) r.cost += best(r.p[i], r.p[i + 1]); }
      }
    }
  });
  int64_t t1 = mono_ns();
  NoPreempt np;
  event("%s %ld to %ld: %s", what, (long)s, (long)g, t.done ? "answered" : t.oom ? "out of memory" : t.broken ? "the user's function failed" : t.err.c_str());
  SIM_CHECK(t.broken == u.failed, "user-error", "%s %s a failure of the user's function", what, t.broken ? "invents" : "swallows");
  if (t.broken) { probe("user's function failed"); return; }
  SIM_CHECK(t.done || t.oom, "refused", "%s failed: %s", what, t.err.c_str());
  if (t.oom) return;
  if (kind == 6 && *what) {
    SIM_CHECK(r.p.size() > 1 && r.p.front() == s && r.p.back() == g, "walk", "the random walk does not lead from %ld to %ld", (long)s, (long)g);
    for (size_t i = 0; i + 1 < r.p.size(); i++) {
      bool ok = false;
      for (auto& e : w.e) ok = ok || (e.a == r.p[i] && e.b == r.p[i + 1]);
      SIM_CHECK(ok, "walk", "the random walk goes from %ld to %ld, which it cannot", (long)r.p[i], (long)r.p[i + 1]);
    }
    SIM_CHECK(std::set<int64_t>(r.p.begin(), r.p.end()).size() == r.p.size(), "walk", "the random walk visits a node twice");
    probe("random walk");
  }
  else if (kind && kind != 6) judge(w, r, s, g, cost, what);
  if (kind == 5) {
    SIM_CHECK(took >= 0 && took * 1e9 <= (double)(t1 - t0) + 1000, "time", "the planner says it took %g s, there were only %g", took, (double)(t1 - t0) / 1e9);
    if (u.slow && alone) SIM_CHECK(took * 1e9 >= (double)(t1 - t0) - 1e7 - 1e6 * 4, "time", "the planner says it took %g s, it was %g", took, (double)(t1 - t0) / 1e9);
    SIM_CHECK(explored <= w.n, "explored", "%zu of %zu nodes were explored", explored, w.n);
  }
}
static void same_graph(const World& w, const char* when) {
  std::vector<size_t> at(w.n, 0);
  SIM_CHECK(w.g.getNodes().size() == w.n, "graph", "%s the graph has %zu nodes", when, w.g.getNodes().size());
  for (auto& e : w.e) {
    auto& out = w.g.getNode(e.a).getOutEdges();
    SIM_CHECK(at[(size_t)e.a] < out.size() && out[at[(size_t)e.a]].getToIndex() == e.b && out[at[(size_t)e.a]].getWeight() == e.w && (int)out[at[(size_t)e.a]].getValidity() == e.valid, "graph", "%s an edge of node %ld is another", when, (long)e.a);
    at[(size_t)e.a]++;
  }
  for (size_t i = 0; i < w.n; i++) SIM_CHECK(w.g.getNode((int64_t)i).getDistance() == INF && w.g.getNode((int64_t)i).getValue() == name_of((int64_t)i) && w.g.getNode((int64_t)i).getOutEdges().size() == at[i], "graph", "%s node %zu was changed", when, i);
}

SCENARIO(C41) {
  config().wall_jumps = choose(2);
  World w;
  auto node = [&] { w.g.addNode(name_of((int64_t)w.n)); w.n++; };
  auto edge = [&] {
    if (w.n < 2) return;
    int64_t a = choose((uint32_t)w.n), b = (a + 1 + (int64_t)choose((uint32_t)w.n - 1)) % (int64_t)w.n;
    double c = some_weight();
    w.g.addEdgeBetweenNodes(a, b, c);
    w.e.push_back(Edge{a, b, c, (int)EDGE_VALIDITY::UNKNOWN});
  };
  for (uint32_t k = 2 + choose(7, "nodes"); k; k--) node();
  for (uint32_t k = choose(20, "edges"); k; k--) edge();
  bool faults = choose(3, "faults") == 2, failing = choose(3) == 2;
  uint32_t ops = 1 + choose(12, "operations");
  for (uint32_t i = 0; i < ops; i++) {
    switch (choose(10, "operation")) {
      default: search(w, faults && choose(2), true, failing); if (i) nontrivial(); break;
      case 5: edge(); break;
      case 6: if (choose(3) == 0) node(); else edge(); break;
      case 7: {  // an edge turns out to be longer, shorter or blocked
        if (w.e.empty()) break;
        size_t k = choose((uint32_t)w.e.size()), nth = 0;
        for (size_t j = 0; j < k; j++) if (w.e[j].a == w.e[k].a) nth++;
        GraphEdge& e = w.g.getNode(w.e[k].a).getOutEdges()[nth];
        size_t mth = 0;
        for (size_t j = 0; j < k; j++) if (w.e[j].b == w.e[k].b) mth++;
        GraphEdge& in = w.g.getNode(w.e[k].b).getInEdges()[mth];
        w.e[k].w = some_weight(); w.e[k].valid = choose(3);
        e.setWeight(w.e[k].w); in.setWeight(w.e[k].w);
        e.setValidity((EDGE_VALIDITY)w.e[k].valid); in.setValidity((EDGE_VALIDITY)w.e[k].valid);
        event("edge %ld-%ld is now %g, %d", (long)w.e[k].a, (long)w.e[k].b, w.e[k].w, w.e[k].valid);
        break;
      }
      case 8: {
        std::vector<int> tids;
        uint32_t T = 2 + choose(2);
        for (uint32_t t = 0; t < T; t++) tids.push_back(spawn([&] { for (int j = 0; j < 2; j++) search(w, false, false, failing); }, "searcher"));
        for (int t : tids) join(t);
        probe("threads");
        nontrivial();
        break;
      }
      case 9: {
        bool threw = false;
        int64_t n = (int64_t)w.n, bad = choose(2) ? n + choose(3) : -1 - (int64_t)choose(3);
        auto h = [](const std::string&, const std::string&) { return 0.0; };
        try {
          switch (choose(4)) {
            case 0: Dij::PerformDijkstrasAlgorithm(w.g, bad); break;
            case 1: Ast::PerformAstar(w.g, bad, 0, h, choose(2)); break;
            case 2: Ast::PerformAstar(w.g, 0, bad, h, choose(2)); break;
            default: Ast::PerformAstar(w.g, 1, 1, h, choose(2));
          }
        } catch (const std::invalid_argument&) { threw = true; }
        SIM_CHECK(threw, "accepted", "a search from or to node %ld of %ld, or from a node to itself, was not refused", (long)bad, (long)n);
        fault("refused_search");
      }
    }
    NoPreempt np;
    same_graph(w, "after a search");
  }
}

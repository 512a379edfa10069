// C42: a graph holds exactly the nodes and edges that were added, whatever was refused, failed, copied, stored or read at the same time.
#include "sim.hpp"
#include <arc_utilities/graph.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
using namespace sim;
using namespace arc_dijkstras;
typedef Graph<std::string> G;
typedef GraphNode<std::string> N;

static std::string some_value() { return "node value " + std::to_string(choose(1000, "value")) + (choose(3) ? " that does not fit into a short string" : ""); }
static double some_weight() { switch (choose(6, "weight")) { case 0: return 1; case 1: return 0; case 2: return std::numeric_limits<double>::infinity(); case 3: return -0.25; case 4: return 1e300; default: return choose(1000) * 0.1; } }

struct Edge { int64_t from, to; double w; int valid; bool operator==(const GraphEdge& e) const { return from == e.getFromIndex() && to == e.getToIndex() && w == e.getWeight() && valid == (int)e.getValidity(); } };
struct Node { std::string v; double d; std::vector<Edge> in, out; };
typedef std::vector<Node> Model;

struct Tried { bool done = false, oom = false; std::string err; };
static Tried attempt(bool arm, const std::function<void()>& f) {
  Tried t;
  if (arm) { alloc_fault_clear(); alloc_faults(4); }
  try { if (arm) alloc_arm(true); f(); alloc_arm(false); t.done = true; } catch (const std::bad_alloc&) { alloc_arm(false); t.oom = true; } catch (const std::exception& x) { alloc_arm(false); t.err = x.what(); }
  if (arm) {
    alloc_faults(0);
    if (t.oom) { SIM_CHECK(alloc_fault_fired(), "bad-alloc", "out of memory was reported although there was enough"); probe("out of memory"); }
    else SIM_CHECK(!t.done || !alloc_fault_fired(), "swallowed", "a failed allocation was not reported");
  }
  return t;
}
static void must(const Tried& t, const char* what) { SIM_CHECK(t.done || t.oom, "refused", "%s: %s", what, t.err.c_str()); }

static std::vector<uint32_t> components(const Model& m, uint32_t* count) {
  std::vector<uint32_t> id(m.size(), 0);
  *count = 0;
  for (size_t s = 0; s < m.size(); s++) {
    if (id[s]) continue;
    id[s] = ++*count;
    std::vector<size_t> todo(1, s);
    while (!todo.empty()) { size_t n = todo.back(); todo.pop_back(); for (auto& e : m[n].out) if (!id[(size_t)e.to]) { id[(size_t)e.to] = *count; todo.push_back((size_t)e.to); } }
  }
  return id;
}
static bool symmetric(const Model& m) {
  std::set<std::pair<int64_t, int64_t>> e;
  for (auto& n : m) for (auto& x : n.out) e.insert(std::make_pair(x.from, x.to));
  for (auto& p : e) if (!e.count(std::make_pair(p.second, p.first))) return false;
  return true;
}
static bool damaged(const Model& m) {  // as the linkage check is described: indices, own index, no loops, linked at the other end
  int64_t n = (int64_t)m.size();
  for (int64_t i = 0; i < n; i++) {
    for (auto& e : m[(size_t)i].out) { if (e.from != i || e.to < 0 || e.to >= n || e.to == i) return true; bool f = false; for (auto& x : m[(size_t)e.to].in) f = f || x.from == i; if (!f) return true; }
    for (auto& e : m[(size_t)i].in) { if (e.to != i || e.from < 0 || e.from >= n || e.from == i) return true; bool f = false; for (auto& x : m[(size_t)e.from].out) f = f || x.to == i; if (!f) return true; }
  }
  return false;
}

static void compare(const G& g, const Model& m, const char* when) {
  SIM_CHECK(g.getNodes().size() == m.size(), "nodes", "%s there are %zu nodes instead of %zu", when, g.getNodes().size(), m.size());
  for (size_t i = 0; i < m.size(); i++) {
    const N& n = g.getNode((int64_t)i);
    SIM_CHECK(n.getValue() == m[i].v && n.getDistance() == m[i].d, "value", "%s node %zu holds '%s' (distance %g) instead of '%s' (distance %g)", when, i, n.getValue().c_str(), n.getDistance(), m[i].v.c_str(), m[i].d);
    for (int k = 0; k < 2; k++) {
      const std::vector<GraphEdge>& got = k ? n.getOutEdges() : n.getInEdges();
      const std::vector<Edge>& want = k ? m[i].out : m[i].in;
      SIM_CHECK(got.size() == want.size(), "edges", "%s node %zu has %zu %s edges instead of %zu", when, i, got.size(), k ? "out" : "in", want.size());
      for (size_t e = 0; e < got.size(); e++) SIM_CHECK(want[e] == got[e], "edges", "%s %s edge %zu of node %zu is %s", when, k ? "out" : "in", e, i, got[e].print().c_str());
    }
  }
  SIM_CHECK(g.checkGraphLinkage() && G::CheckGraphLinkage(g), "linkage", "%s the graph is called badly linked", when);
  SIM_CHECK(!g.indexInRange(-1) && !g.indexInRange((int64_t)m.size()) && (m.empty() || (g.indexInRange(0) && g.indexInRange((int64_t)m.size() - 1))), "range", "%s the range of node numbers is wrong", when);
}
static void ask(const G& g, const Model& m, const char* when) {
  if (m.empty()) return;
  int64_t a = choose((uint32_t)m.size()), b = choose((uint32_t)m.size());
  const Edge* want = nullptr;
  for (auto& e : m[(size_t)a].out) if (e.to == b) { want = &e; break; }
  bool threw = false;
  GraphEdge got;
  try { got = g.getEdge(a, b); } catch (const std::invalid_argument&) { threw = true; }
  SIM_CHECK(threw == !want && (!want || *want == got), "edge", "%s the edge from %ld to %ld is %s", when, (long)a, (long)b, threw ? "not found" : got.print().c_str());
}
static void parts(const G& g, const Model& m, const char* when) {
  if (!symmetric(m)) return;
  uint32_t n;
  std::vector<uint32_t> want = components(m, &n);
  auto got = g.getConnectedComponentsUndirected();
  NoPreempt np;
  SIM_CHECK(got.second == n && got.first.size() == m.size(), "components", "%s there are %u components of %zu nodes instead of %u of %zu", when, got.second, got.first.size(), n, m.size());
  std::map<uint32_t, uint32_t> name;
  std::set<uint32_t> used;
  for (size_t i = 0; i < m.size(); i++) {
    SIM_CHECK(got.first[i] >= 1 && got.first[i] <= n, "components", "%s node %zu is in component %u of %u", when, i, got.first[i], n);
    auto f = name.insert(std::make_pair(want[i], got.first[i]));
    SIM_CHECK(f.first->second == got.first[i] && (!f.second || used.insert(got.first[i]).second), "components", "%s node %zu is in component %u, which is not the one of the nodes it is connected with", when, i, got.first[i]);
  }
  probe("components");
}

struct Graph_ { std::unique_ptr<G> g; Model m; uint32_t adds = 0; };

static void add_edge(Graph_& o, bool arm) {
  Model& m = o.m;
  G& g = *o.g;
  int64_t n = (int64_t)m.size();
  int64_t a = n ? (int64_t)choose((uint32_t)n) : 0, b = n ? (int64_t)choose((uint32_t)n) : 0;
  if (choose(8, "bad index?") == 7) { (choose(2) ? a : b) = choose(2) ? n + (int64_t)choose(3) : -1 - (int64_t)choose(3); if (choose(4) == 3) b = a; }
  bool good = a >= 0 && b >= 0 && a < n && b < n && a != b, both = choose(2);
  double w = some_weight();
  Edge e{a, b, w, (int)EDGE_VALIDITY::UNKNOWN}, r{b, a, w, (int)EDGE_VALIDITY::UNKNOWN};
  GraphEdge* ref = nullptr;
  std::pair<GraphEdge, GraphEdge> pair;
  Tried t = attempt(arm, [&] { if (both) pair = g.addEdgesBetweenNodes(a, b, w); else ref = &g.addEdgeBetweenNodes(a, b, w); });
  event("%s %ld-%ld weight %g: %s", both ? "edges" : "edge", (long)a, (long)b, w, t.done ? "added" : t.oom ? "out of memory" : t.err.c_str());
  if (!good) { SIM_CHECK(!t.done, "accepted", "an edge from %ld to %ld was added to %ld nodes", (long)a, (long)b, (long)n); fault("refused_edge"); return; }
  must(t, "an edge was refused");
  if (t.oom) return;
  m[(size_t)a].out.push_back(e); m[(size_t)b].in.push_back(e);
  if (both) { m[(size_t)b].out.push_back(r); m[(size_t)a].in.push_back(r); SIM_CHECK(e == pair.first && r == pair.second, "returned", "the edges returned are %s and %s", pair.first.print().c_str(), pair.second.print().c_str()); }
  else {
    SIM_CHECK(e == *ref, "returned", "the edge returned is %s, weight %g was added", ref->print().c_str(), w);
    if (choose(2)) {  // the edge returned is the one in the graph
      double nw = some_weight();
      ref->setWeight(nw); ref->setValidity(EDGE_VALIDITY::VALID);
      m[(size_t)a].out.back().w = nw; m[(size_t)a].out.back().valid = EDGE_VALIDITY::VALID;
    }
  }
  if (o.adds++) nontrivial();
}
static void add_node(Graph_& o, bool arm) {
  Node n{some_value(), std::numeric_limits<double>::infinity(), {}, {}};
  int64_t at = -1;
  bool whole = choose(3) == 2;
  if (whole) n.d = some_weight();
  Tried t = attempt(arm, [&] { at = whole ? o.g->addNode(N(n.v, n.d, {}, {})) : o.g->addNode(n.v); });
  must(t, "a node could not be added");
  event("node '%s': %s", n.v.c_str(), t.done ? "added" : "out of memory");
  if (t.oom) return;
  SIM_CHECK(at == (int64_t)o.m.size(), "returned", "node %zu was added as number %ld", o.m.size(), (long)at);
  o.m.push_back(n);
}
static void change(Graph_& o) {
  if (o.m.empty()) return;
  size_t i = choose((uint32_t)o.m.size());
  Node& n = o.m[i];
  N& x = o.g->getNode((int64_t)i);
  switch (choose(4, "change")) {
    case 0: n.v = some_value(); x.getValue() = n.v; break;
    case 1: n.d = some_weight(); x.setDistance(n.d); break;
    default: {
      if (n.out.empty()) return;
      size_t k = choose((uint32_t)n.out.size());
      int64_t to = n.out[k].to;
      for (k = 0; n.out[k].to != to; k++) {}
      GraphEdge* e = &o.g->getEdge((int64_t)i, to);
      Edge* w = &n.out[k];
      if (choose(2)) {
        Edge* rev = nullptr;
        for (auto& q : o.m[(size_t)to].out) if (q.to == (int64_t)i) { rev = &q; break; }
        bool threw = false;
        try { GraphEdge* f = &o.g->getReverseEdge(*e); e = f; w = rev; } catch (const std::invalid_argument&) { threw = true; }
        SIM_CHECK(threw == !rev, "reverse", "the reverse of %s is %s", e->print().c_str(), threw ? "not found" : "found");
      }
      w->w = some_weight(); e->setWeight(w->w);
      w->valid = choose(3); e->setValidity((EDGE_VALIDITY)w->valid);
    }
  }
}
static void store(std::vector<std::unique_ptr<Graph_>>& gs, Graph_& o, bool arm) {
  std::vector<uint8_t> buf(choose(4), 0x5a);
  const size_t at = buf.size();
  uint64_t wrote = 0;
  bool self = choose(2);
  Tried t = attempt(arm, [&] { wrote = self ? o.g->serializeSelf(buf, arc_utilities::SerializeString<char>) : G::Serialize(*o.g, buf, arc_utilities::SerializeString<char>); });
  must(t, "a graph could not be stored");
  if (t.oom) return;
  SIM_CHECK(wrote == buf.size() - at, "stored", "%zu bytes were stored, it says %zu", buf.size() - at, (size_t)wrote);
  for (uint32_t k = choose(4); k; k--) buf.push_back(0xa5);
  Graph_& x = *gs[choose((uint32_t)gs.size())];
  uint64_t r = 0;
  t = attempt(arm, [&] { if (self) r = x.g->deserializeSelf(buf, at, arc_utilities::DeserializeString<char>); else { auto d = G::Deserialize(buf, at, arc_utilities::DeserializeString<char>); r = d.second; x.g.reset(new G(std::move(d.first))); } });
  must(t, "a stored graph could not be loaded");
  event("a graph was stored and %s", t.done ? "loaded" : "not loaded: out of memory");
  if (t.oom) { if (self) x.g.reset(new G(*o.g)); else return; }  // what a graph loaded by half holds is not specified
  else SIM_CHECK(r == wrote, "stored", "%zu bytes were stored and %zu read", (size_t)wrote, (size_t)r);
  Model m = o.m;
  x.m = m;
  probe("stored");
}
static std::vector<N> nodes_of(const Model& m) {
  std::vector<N> ns;
  auto list = [](const std::vector<Edge>& v) { std::vector<GraphEdge> r; for (auto& e : v) { GraphEdge x(e.from, e.to, e.w); x.setValidity((EDGE_VALIDITY)e.valid); r.push_back(x); } return r; };
  for (auto& n : m) ns.push_back(N(n.v, n.d, list(n.in), list(n.out)));
  return ns;
}
static void from_nodes(Graph_& o) {
  Model m = o.m;
  size_t i = m.empty() ? 0 : choose((uint32_t)m.size());
  if (choose(3) && !m.empty()) {
    bool out = choose(2);
    std::vector<Edge>& l = out ? m[i].out : m[i].in;
    switch (choose(5, "damage")) {
      case 0: if (!l.empty()) l.erase(l.begin() + choose((uint32_t)l.size())); break;
      case 1: if (!l.empty()) { Edge& e = l[choose((uint32_t)l.size())]; (out ? e.to : e.from) = choose(2) ? (int64_t)m.size() + choose(3) : -1 - (int64_t)choose(3); } break;
      case 2: if (!l.empty()) { Edge& e = l[choose((uint32_t)l.size())]; (choose(2) ? e.to : e.from) = (int64_t)choose((uint32_t)m.size()); } break;
      case 3: { Edge e{(int64_t)i, (int64_t)i, 1, 0}; m[i].out.push_back(e); if (choose(2)) m[i].in.push_back(e); break; }
      default: { Edge e{(int64_t)i, (int64_t)choose((uint32_t)m.size()), 1, 0}; if (choose(2)) std::swap(e.from, e.to); l.push_back(e); }
    }
    fault("damaged_links");
  }
  bool bad = damaged(m), threw = false;
  std::vector<N> ns = nodes_of(m);
  SIM_CHECK(G::CheckGraphLinkage(ns) == !bad, "linkage", "nodes that are %s linked are called %s", bad ? "badly" : "well", bad ? "well linked" : "badly linked");
  std::unique_ptr<G> g;
  try { g.reset(new G(ns)); } catch (const std::invalid_argument&) { threw = true; }
  SIM_CHECK(threw == bad, "linkage", "a graph was %s from nodes that are %s linked", threw ? "not made" : "made", bad ? "badly" : "well");
  event("a graph of %zu nodes that are %s linked", m.size(), bad ? "badly" : "well");
  if (g) { o.g = std::move(g); o.m = m; }
}

SCENARIO(C42) {
  config().clock_ticks = false;
  std::vector<std::unique_ptr<Graph_>> gs;
  bool faults = choose(3, "faults") == 2;
  gs.emplace_back(new Graph_);
  gs[0]->g.reset(choose(2) ? new G : new G((size_t)choose(8)));
  for (uint32_t k = choose(5); k; k--) add_node(*gs[0], false);
  uint32_t ops = 1 + choose(30, "operations");
  bool parallel = choose(2);  // edges are added both ways
  for (uint32_t n = 0; n < ops; n++) {
    uint32_t k = choose((uint32_t)gs.size());
    Graph_& o = *gs[k];
    bool arm = faults && choose(2);
    switch (choose(20, "operation")) {
      default:
        if (parallel && !arm && choose(4) && o.m.size() > 1) {
          int64_t a = choose((uint32_t)o.m.size()), b = (a + 1 + (int64_t)choose((uint32_t)o.m.size() - 1)) % (int64_t)o.m.size();
          double w = some_weight();
          o.g->addEdgesBetweenNodes(a, b, w);
          Edge e{a, b, w, (int)EDGE_VALIDITY::UNKNOWN}, r{b, a, w, (int)EDGE_VALIDITY::UNKNOWN};
          o.m[(size_t)a].out.push_back(e); o.m[(size_t)b].in.push_back(e); o.m[(size_t)b].out.push_back(r); o.m[(size_t)a].in.push_back(r);
          if (o.adds++) nontrivial();
        } else
          add_edge(o, arm);
        break;
      case 7: case 8: case 9: add_node(o, arm); break;
      case 10: case 11: change(o); break;
      case 12: {
        if (gs.size() > 2) { Graph_& x = *gs[choose((uint32_t)gs.size())]; *o.g = *x.g; if (&x != &o) o.m = x.m; event("assigned"); break; }
        std::unique_ptr<Graph_> c(new Graph_);
        Tried t = attempt(arm, [&] { c->g.reset(new G(*o.g)); });
        must(t, "a graph could not be copied");
        c->m = o.m;
        if (t.done) gs.push_back(std::move(c));
        event("copied");
        break;
      }
      case 13: store(gs, o, arm); break;
      case 14: from_nodes(o); break;
      case 15: {
        if (arm) { Tried t = attempt(true, [&] { o.g->getConnectedComponentsUndirected(); }); must(t, "components"); }
        parts(*o.g, o.m, "now");
        break;
      }
      case 16: if (choose(2)) o.g->shrinkToFit(); else if (gs.size() > 1) { gs.erase(gs.begin() + k); event("a graph is gone"); } break;
      case 17: {
        bool threw = false;
        int64_t i = choose(2) ? (int64_t)o.m.size() + choose(3) : -1 - (int64_t)choose(3);
        try { if (choose(2)) o.g->getNode(i); else o.g->getEdge(i, 0); } catch (const std::out_of_range&) { threw = true; }
        SIM_CHECK(threw, "accepted", "node %ld of %zu was found", (long)i, o.m.size());
        break;
      }
      case 18: {
        // one graph is read by all threads, or each changes a graph of its own
        std::vector<int> tids;
        if (gs.size() > 1 && choose(2)) {
          for (auto& x : gs) { Graph_* p = x.get(); tids.push_back(spawn([p] { for (int i = 0; i < 3; i++) { if (choose(3) == 0) add_node(*p, false); else add_edge(*p, false); if (choose(3) == 0) parts(*p->g, p->m, "while others build"); } }, "builder")); }
        } else {
          for (int t = 0; t < 2; t++) tids.push_back(spawn([&o] {
            for (int i = 0; i < 3; i++) switch (choose(4)) {
              case 0: compare(*o.g, o.m, "while others read"); break;
              case 1: ask(*o.g, o.m, "while others read"); break;
              case 2: parts(*o.g, o.m, "while others read"); break;
              default: { std::vector<uint8_t> b; o.g->serializeSelf(b, arc_utilities::SerializeString<char>); auto d = G::Deserialize(b, 0, arc_utilities::DeserializeString<char>); NoPreempt np; compare(d.first, o.m, "stored while others read"); }
            }
          }, "reader"));
        }
        for (int t : tids) join(t);
        probe("threads");
        break;
      }
      case 19: ask(*o.g, o.m, "now"); break;
    }
    NoPreempt np;
    for (auto& x : gs) compare(*x->g, x->m, "later");
  }
  parts(*gs[0]->g, gs[0]->m, "at last");
}

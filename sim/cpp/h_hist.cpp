// C40, C46: objects that keep state between uses must answer as if they were new.
#include "sim.hpp"
#include <arc_utilities/simple_dtw.hpp>
#include <arc_utilities/time_optimal_trajectory_parametrization.hpp>
#include <cmath>
#include <cstring>
#include <memory>
using namespace sim;
using time_optimal_trajectory_parametrization::Path;
using time_optimal_trajectory_parametrization::Trajectory;
typedef Eigen::VectorXd V;

// ------------------------------------------------------------------ C40
struct Answer { double t; V p, v; };
static bool same(const V& a, const V& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
SCENARIO(C40) {
  config().clock_ticks = false;
  config().max_tick_ns = 1000;
  uint32_t dim = 1 + choose(3, "dimensions"), n = 2 + choose(4, "waypoints");
  std::list<V> way;
  for (uint32_t i = 0; i < n; i++) {
    V w(dim);
    for (uint32_t d = 0; d < dim; d++) w[d] = choose(5);
    if (!way.empty() && (way.back() - w).norm() < 0.5) w[0] += way.back()[0] < 3 ? 1.0 + choose(2) : -1.0 - choose(2);
    if (way.size() > 1) {  // no turning back on the spot: computing such trajectories need not end (not this property)
      V a = (way.back() - *std::prev(way.end(), 2)).normalized(), b = (w - way.back()).normalized();
      if (a.dot(b) < -0.9) w = way.back() + a;
    }
    way.push_back(w);
  }
  V vel(dim), acc(dim);
  for (uint32_t d = 0; d < dim; d++) { vel[d] = 0.5 + 0.5 * choose(4); acc[d] = 0.5 + 0.5 * choose(4); }
  double dev = dim > 1 ? 0.05 * (1 + choose(4)) : 0.1, step = 0.05 * (1 + choose(3));
  bool from_path = choose(2);
  std::unique_ptr<Path> path;
  auto make = [&]() -> Trajectory* {
    NoPreempt np;
    return from_path ? new Trajectory(*path, vel, acc, step) : new Trajectory(way, vel, acc, dev, step);
  };
  if (from_path) {
    NoPreempt np;
    path.reset(new Path(way, dev));
    if (choose(2)) {  // the path the trajectory is made from may itself be a copy, and its source may be gone
      Path* c = new Path(*path);
      std::list<V> shorter(way);
      if (choose(2)) shorter.pop_back();
      if (choose(2)) { Path other(shorter, dev); if (choose(2)) { *path = other; } other = *c; if (choose(2)) *path = other; else path.reset(new Path(other)); probe("path assigned"); }
      SIM_CHECK(same(c->GetConfig(c->Length() / 2), path->GetConfig(path->Length() / 2)) && c->Length() == path->Length(), "path-copy", "a copied path differs from its source");
      delete c;
    }
  }
  std::unique_ptr<Trajectory> first;
  try { first.reset(make()); } catch (const std::exception& x) { event("no trajectory: %s", x.what()); probe("no trajectory"); return; }
  double T = first->Duration();
  std::unique_ptr<Trajectory> pristine;  // never asked anything
  { NoPreempt np; pristine.reset(make()); }
  event("duration %.9g, %u waypoints, %u dimensions", T, n, dim);
  if (!(T > 0) || !std::isfinite(T)) { probe("degenerate"); return; }
  // the reference: every instant asked of a trajectory that has never been asked before
  std::map<double, Answer> fresh;
  auto reference = [&](double t) -> const Answer& {
    auto f = fresh.find(t);
    if (f != fresh.end()) return f->second;
    NoPreempt np;
    std::unique_ptr<Trajectory> x(choose(4) == 3 ? make() : new Trajectory(*pristine));
    auto a = x->GetPositionVelocity(t);
    return fresh[t] = Answer{t, a.first, a.second};
  };
  struct Obj { std::unique_ptr<Trajectory> t; double clock = 0, last = 0; uint32_t asked = 0; };
  std::vector<std::unique_ptr<Obj>> objs;
  objs.emplace_back(new Obj);
  objs[0]->t = std::move(first);
  std::vector<double> used{0.0, T};
  auto instant = [&](Obj& o) {  // what the controller's clock says
    switch (choose(8, "clock")) {
      case 0: o.clock += T / (3 + choose(30)); break;                                   // runs on
      case 1: o.clock += T / 200 * choose(8); break;
      case 2: o.clock -= std::min(o.clock, T / (2 + choose(12))); fault("clock_back"); break;
      case 3: return o.last;                                                             // has not moved
      case 4: { o.clock = used[choose((uint32_t)used.size())]; break; }
      case 5: o.clock = std::nextafter(used[choose((uint32_t)used.size())], choose(2) ? T * 2 : 0.0); break;
      case 6: o.clock = T * choose(1001) / 1000.0; fault("clock_jump"); break;
      default: o.clock = 0; fault("clock_restart");
    }
    if (o.clock > T && choose(4)) o.clock = T;
    if (o.clock < 0) o.clock = 0;
    if (o.clock > T * 1.2) o.clock = 0;
    return o.clock;
  };
  auto ask = [&](Obj& o) {
    no_preempt(true);
    double t = instant(o);
    o.last = t;
    used.push_back(t);
    const Answer& w = reference(t);
    no_preempt(false);
    auto a = o.t->GetPositionVelocity(t);
    NoPreempt np;
    o.asked++;
    event("asked %.17g", t);
    SIM_CHECK(same(a.first, w.p) && same(a.second, w.v), "history-dependent", "at %.17g of %.17g s a trajectory asked %u times before says position[0] %.17g velocity[0] %.17g; one never asked before says %.17g and %.17g", t, T, o.asked - 1,
              a.first[0], a.second[0], w.p[0], w.v[0]);
    SIM_CHECK(o.t->Duration() == T, "duration", "the duration changed from %.17g to %.17g", T, o.t->Duration());
  };
  uint32_t ops = 1 + choose(24, "operations");
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t k = choose((uint32_t)objs.size());
    switch (choose(8, "operation")) {
      case 5: {
        if (objs.size() > 3) break;
        std::unique_ptr<Obj> c(new Obj);
        c->t.reset(new Trajectory(*objs[k]->t));
        c->clock = objs[k]->clock; c->last = objs[k]->last;
        if (objs[k]->asked) probe("copied after use");
        objs.push_back(std::move(c));
        event("copy of %u", k);
        break;
      }
      case 6: if (objs.size() > 1) { objs.erase(objs.begin() + k); event("destroyed %u", k); probe("destroyed"); } break;
      case 7: {
        // every copy belongs to one thread
        if (objs.size() < 2) break;
        std::vector<int> tids;
        uint32_t m = 1 + choose(4);
        for (auto& o : objs) { Obj* p = o.get(); tids.push_back(spawn([&ask, p, m] { for (uint32_t j = 0; j < m; j++) ask(*p); }, "controller")); }
        for (int t : tids) join(t);
        probe("threads");
        nontrivial();
        break;
      }
      default: ask(*objs[k]); if (objs[k]->asked > 1) nontrivial();
    }
  }
}

// ------------------------------------------------------------------ C46
struct Boom { uint32_t n; };
SCENARIO(C46) {
  config().preempt = choose(2);
  typedef std::function<double(const int&, const int&)> D;
  typedef simple_dtw::SimpleDTW<int, int, D> DTW;
  uint32_t nobj = 1 + choose(2), threads = choose(4) ? 1 : 2;
  double table[6][6];
  bool ties = choose(2);
  for (auto& r : table) for (double& x : r) x = choose(8) == 7 ? (choose(2) ? HUGE_VAL : 0.0) : ties ? choose(3) : choose(1000) / 7.0;
  auto body = [&](uint32_t who) {
    std::vector<std::unique_ptr<DTW>> ev;
    for (uint32_t i = 0; i < nobj; i++) { if (choose(2)) ev.emplace_back(new DTW()); else { uint32_t a = choose(6), b = choose(6); ev.emplace_back(new DTW(a, b)); } }
    uint32_t ops = 1 + choose(6, "evaluations");
    for (uint32_t o = 0; o < ops; o++) {
      uint32_t k = choose((uint32_t)ev.size());
      if (choose(8) == 7) { uint32_t j = choose((uint32_t)ev.size()); *ev[k] = *ev[j]; probe("copied"); }
      std::vector<int> a(choose(7, "length")), b(choose(7, "length"));
      for (int& x : a) x = choose(6);
      for (int& x : b) x = choose(6);
      uint32_t boom = choose(5) == 4 ? 1 + choose(12) : 0, calls = 0;
      bool once = choose(4) == 3;
      D d = [&](const int& x, const int& y) {
        if (++calls == boom) { fault("distance_raises"); throw Boom{calls}; }
        return table[x][y];
      };
      double got = 0;
      bool raised = false;
      try { got = once ? simple_dtw::ComputeDTWDistance<int, int, D>(a, b, d) : ev[k]->EvaluateWarpingCost(a, b, d); } catch (const Boom&) { raised = true; }
      bool must = boom && boom <= a.size() * b.size();
      event("%u: %zu x %zu -> %.9g%s", who, a.size(), b.size(), got, raised ? " raised" : "");
      SIM_CHECK(raised == must || raised == (boom && boom <= calls), "exception", "the exception of the distance function %s", raised ? "came from nowhere" : "was swallowed");
      if (raised) continue;
      std::vector<std::vector<double>> m(a.size() + 1, std::vector<double>(b.size() + 1, HUGE_VAL));
      m[0][0] = 0;
      for (size_t i = 1; i <= a.size(); i++)
        for (size_t j = 1; j <= b.size(); j++) m[i][j] = table[a[i - 1]][b[j - 1]] + std::min(std::min(m[i - 1][j], m[i][j - 1]), m[i - 1][j - 1]);
      double want = m[a.size()][b.size()];
      bool eq = got == want || (std::isfinite(want) && std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)));
      SIM_CHECK(eq, "wrong-cost", "the warping cost of %zu and %zu elements is %.17g, the cheapest alignment costs %.17g (evaluation %u of this evaluator)", a.size(), b.size(), got, want, o);
      if (o) nontrivial();
    }
  };
  if (threads == 1) body(0);
  else {
    std::vector<int> t;
    for (uint32_t i = 0; i < threads; i++) t.push_back(spawn([&, i] { body(i); }, "user"));
    for (int x : t) join(x);
  }
}

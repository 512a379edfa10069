// C63: neighbours on a grid, with changing and failing callbacks, failing allocations and several threads.
#include "sim.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <arc_utilities/get_neighbours.hpp>
using namespace sim;

struct CallFailed : std::runtime_error { int n; explicit CallFailed(int k) : std::runtime_error("callback failed"), n(k) {} };
typedef std::vector<int> Cell;            // indices of a cell
struct Plain2 { double v[2]; Plain2(double x, double y) : v{x, y} {} double operator[](size_t i) const { return v[i]; } };
struct Plain3 { double v[3]; Plain3(double x, double y, double z) : v{x, y, z} {} double operator[](size_t i) const { return v[i]; } };

struct Grid {
  int dim = 2;
  double step = 1, origin[3] = {0, 0, 0};
  double lo[3], hi[3];
  uint32_t bits = 0, mode = 0;
  int calls = 0, fail_at = -1, threw = 0;
  bool armed = false;                          // allocations may fail now
  std::map<Cell, std::pair<int, int>> asked;   // accepted, refused
  double snap(double x, int d) const { return origin[d] + step * std::round((x - origin[d]) / step); }
  int index(double x, int d) const { return (int)std::lround((x - origin[d]) / step); }
  void tick() {
    if (++calls == fail_at) { threw = calls; fault("callback_fails"); alloc_arm(false); throw CallFailed(calls); }
    SIM_CHECK(calls < 5000, "endless", "one request made %d callbacks", calls);
  }
};
template <typename C> C make(const double* v);
template <> Eigen::Vector2d make(const double* v) { return Eigen::Vector2d(v[0], v[1]); }
template <> Eigen::Vector3d make(const double* v) { return Eigen::Vector3d(v[0], v[1], v[2]); }
template <> Plain2 make(const double* v) { return Plain2(v[0], v[1]); }
template <> Plain3 make(const double* v) { return Plain3(v[0], v[1], v[2]); }
template <typename C> static std::vector<C> query2(const C& c, const Grid& g, const std::function<C(const C&)>& r, const std::function<bool(const C&)>& ok) {
  return arc_utilities::GetNeighbours::TwoDimensional8Connected<C, double>(c, g.lo[0], g.hi[0], g.lo[1], g.hi[1], g.step, r, ok);
}
template <typename C> static std::vector<C> query3(const C& c, const Grid& g, const std::function<C(const C&)>& r, const std::function<bool(const C&)>& ok) {
  return arc_utilities::GetNeighbours::ThreeDimensional8Connected<C, double>(c, g.lo[0], g.hi[0], g.lo[1], g.hi[1], g.lo[2], g.hi[2], g.step, r, ok);
}
static std::vector<Eigen::Vector2d> query(const Eigen::Vector2d& c, const Grid& g, const std::function<Eigen::Vector2d(const Eigen::Vector2d&)>& r, const std::function<bool(const Eigen::Vector2d&)>& ok) { return query2(c, g, r, ok); }
static std::vector<Plain2> query(const Plain2& c, const Grid& g, const std::function<Plain2(const Plain2&)>& r, const std::function<bool(const Plain2&)>& ok) { return query2(c, g, r, ok); }
static std::vector<Eigen::Vector3d> query(const Eigen::Vector3d& c, const Grid& g, const std::function<Eigen::Vector3d(const Eigen::Vector3d&)>& r, const std::function<bool(const Eigen::Vector3d&)>& ok) { return query3(c, g, r, ok); }
static std::vector<Plain3> query(const Plain3& c, const Grid& g, const std::function<Plain3(const Plain3&)>& r, const std::function<bool(const Plain3&)>& ok) { return query3(c, g, r, ok); }

template <typename C> static void request(Grid& g, bool mem) {
  double at[3];
  bool off = choose(6) == 5;
  for (int d = 0; d < g.dim; d++) {
    // inside, on the edge, or outside the bounds
    int a = g.index(g.lo[d], d), b = g.index(g.hi[d], d), span = b - a + 1;
    int i = a - 2 + (int)choose((uint32_t)span + 4, "cell");
    at[d] = g.origin[d] + g.step * i;
    if (off) at[d] += g.step * 0.1 * ((int)choose(9) - 4);
  }
  const C c = make<C>(at);
  auto cell = [&g](const C& x) { Cell r; for (int d = 0; d < g.dim; d++) r.push_back(g.index(x[d], d)); return r; };
  auto text = [](const Cell& x) { std::string s; for (int i : x) s += (s.empty() ? "" : ",") + std::to_string(i); return s; };
  // the cells to be returned if valid
  std::vector<Cell> expect;
  for (int k = 0; k < (g.dim == 2 ? 9 : 27); k++) {
    Cell r; double v[3]; int q = k; bool in = true, same = true;
    for (int d = 0; d < g.dim; d++) {
      v[d] = g.snap(at[d] + g.step * (q % 3 - 1), d);
      q /= 3;
      in = in && v[d] >= g.snap(g.lo[d], d) && v[d] <= g.snap(g.hi[d], d);
      same = same && v[d] == at[d];
      r.push_back(g.index(v[d], d));
    }
    if (in && !same) expect.push_back(r);
  }
  const std::function<C(const C&)> round_to = [&](const C& x) { NoPreempt np; g.tick(); double v[3]; for (int d = 0; d < g.dim; d++) v[d] = g.snap(x[d], d); return make<C>(v); };
  const std::function<bool(const C&)> valid = [&](const C& x) {
    NoPreempt np;
    g.tick();
    alloc_arm(false);
    Cell k = cell(x);
    for (int d = 0; d < g.dim; d++) SIM_CHECK(x[d] == g.snap(x[d], d), "off-grid", "the validity check was asked about a point that is not on the grid");
    SIM_CHECK(std::find(expect.begin(), expect.end(), k) != expect.end(), "asked-elsewhere", "the validity check was asked about cell %s, which is no neighbour within the bounds", text(k).c_str());
    uint32_t h = g.bits;
    for (int i : k) h = h * 31u + (uint32_t)(i + 77) * 2654435761u;
    bool ok = g.mode == 0 ? true : g.mode == 1 ? (h >> 7) % 3 != 0 : g.mode == 2 ? (h >> 7) % 4 == 0 : g.mode == 3 ? false : choose(2) != 0;
    (ok ? g.asked[k].first : g.asked[k].second)++;
    alloc_arm(g.armed);
    return ok;
  };
  g.fail_at = choose(4) == 3 ? 1 + (int)choose(choose(2) ? 6 : 40, "fails at") : -1;
  for (int attempt = 0; attempt < 3; attempt++) {
    g.calls = g.threw = 0;
    g.asked.clear();
    bool done = false;
    std::vector<C> out;
    try {
      g.armed = mem && attempt == 0;
      alloc_arm(g.armed);
      out = query(c, g, round_to, valid);
      alloc_arm(false);
      done = true;
    } catch (const CallFailed& x) {
      alloc_arm(false);
      SIM_CHECK(g.threw && x.n == g.threw, "unexpected-exception", "another failure than the one of the callback");
      probe("callback failed");
    } catch (const std::bad_alloc&) {
      alloc_arm(false);
      SIM_CHECK(mem && attempt == 0, "unexpected-exception", "bad_alloc with memory left");
      probe("out of memory");
    } catch (const std::exception& x) {
      alloc_arm(false);
      violation("unexpected-exception", "the request raised %s", x.what());
    }
    if (done) {
      SIM_CHECK(!g.threw, "swallowed", "the failure of a callback went unnoticed");
      std::map<Cell, int> got;
      for (const C& x : out) {
        for (int d = 0; d < g.dim; d++) SIM_CHECK(x[d] == g.snap(x[d], d), "off-grid", "a neighbour is not on the grid");
        Cell k = cell(x);
        SIM_CHECK(++got[k] == 1, "twice", "cell %s was returned twice", text(k).c_str());
        SIM_CHECK(std::find(expect.begin(), expect.end(), k) != expect.end(), "no-neighbour", "cell %s was returned, which is no neighbour within the bounds", text(k).c_str());
        SIM_CHECK(g.asked.count(k) && g.asked[k].first, "not-valid", "cell %s was returned, which was not accepted", text(k).c_str());
      }
      for (const Cell& k : expect) SIM_CHECK(got.count(k) || (g.asked.count(k) && g.asked[k].second), "missing", "cell %s was not returned although it was not refused", text(k).c_str());
      event("%d dimensions, cell %s: %zu of %zu neighbours", g.dim, text(cell(c)).c_str(), out.size(), expect.size());
      if (out.size() && out.size() < (g.dim == 2 ? 8u : 26u)) probe("some neighbours");
      break;
    }
    g.fail_at = -1;
  }
}

SCENARIO(C63) {
  uint32_t nthreads = choose(4) == 3 ? 2 : 1;
  bool mem = choose(3, "memory") == 2;
  if (mem) alloc_faults(1 + choose(6));
  std::vector<Grid> gs(nthreads);
  static const double steps[] = {1.0, 0.1, 0.25, 3.0, 0.01, 100.0};
  for (Grid& g : gs) {
    g.dim = 2 + (int)choose(2);
    g.step = steps[choose(6, "step")];
    g.mode = choose(5, "validity");
    g.bits = choose(1u << 20, "validity bits");
    for (int d = 0; d < g.dim; d++) {
      if (choose(3) == 2) g.origin[d] = g.step * ((int)choose(21) - 10) * 0.1;
      int a = (int)choose(8) - 5, n = (int)choose(6);
      g.lo[d] = g.origin[d] + g.step * a;
      g.hi[d] = g.lo[d] + g.step * n;
      if (choose(3) == 2) { g.lo[d] += g.step * 0.1 * ((int)choose(7) - 3); g.hi[d] += g.step * 0.1 * ((int)choose(7) - 3); }
      if (g.hi[d] < g.lo[d]) std::swap(g.lo[d], g.hi[d]);
    }
  }
  nontrivial();
  auto body = [&](Grid& g) {
    for (uint32_t k = 1 + choose(4, "requests"); k-- > 0;) {
      if (g.dim == 2) { if (choose(2)) request<Eigen::Vector2d>(g, mem); else request<Plain2>(g, mem); }
      else { if (choose(2)) request<Eigen::Vector3d>(g, mem); else request<Plain3>(g, mem); }
    }
  };
  if (nthreads == 1) { body(gs[0]); return; }
  std::vector<int> t;
  for (Grid& g : gs) t.push_back(spawn([&] { body(g); }, "planner"));
  for (int x : t) join(x);
}

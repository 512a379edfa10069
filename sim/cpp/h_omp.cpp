// C09..C12: parallel numerical kernels under the simulated OpenMP runtime.
#include "sim.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_hausdorff_distance.hpp>
#include <arc_utilities/simple_hierarchical_clustering.hpp>
#include <cmath>
#include <cstring>
using namespace sim;
#ifdef SERIAL_BUILD
#define BUILD(name) void serial_##name()
#else
// the same scenario against the code as it is built by default, without OpenMP (h_omp_serial.cpp)
#define BUILD(name) void serial_##name(); static void parallel_##name(); SCENARIO(name) { if (choose(4, "build") == 3) { probe("sequential_build"); serial_##name(); } else parallel_##name(); } static void parallel_##name()
#endif

namespace {
struct P { double x = 0, y = 0; int id = 0; };
struct Q { double x = 0, y = 0; int id = 0; };
}  // namespace

static void team_setup() {
  config().omp_max = 1 + choose(4, "max threads");
  config().omp_dynamic = choose(3) != 0;
}
template <typename T> static std::vector<T> points(uint32_t maxn, bool distinct, const char* what) {
  std::vector<T> v(choose(maxn + 1, what));
  for (size_t i = 0; i < v.size(); i++) {
    v[i].id = (int)i;
    if (distinct) { v[i].x = (double)choose(1 << 24) / (1 << 20); v[i].y = (double)choose(1 << 24) / (1 << 20); }
    else { v[i].x = choose(4); v[i].y = choose(4); }
  }
  return v;
}
static bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static double dist(double ax, double ay, double bx, double by) { return std::sqrt((ax - bx) * (ax - bx) + (ay - by) * (ay - by)); }

BUILD(C09) {
  team_setup();
  uint32_t rounds = 1 + choose(2);
  for (uint32_t r = 0; r < rounds; r++) {
    uint32_t kind = choose(4, "kind");
    if (kind == 0) {
      auto v = points<P>(9, choose(2), "size");
      std::function<double(const P&, const P&)> d = [](const P& a, const P& b) { return dist(a.x, a.y, b.x, b.y) + (a.id < b.id ? 0.0 : 1000.0 + a.id); };
      Eigen::MatrixXd m = arc_helpers::BuildDistanceMatrixParallel(v, d), s = arc_helpers::BuildDistanceMatrixSerial(v, d);
      NoPreempt np;
      event("one set n=%zu", v.size());
      SIM_CHECK(m.rows() == (long)v.size() && m.cols() == (long)v.size(), "shape", "matrix of %zu elements is %ldx%ld", v.size(), (long)m.rows(), (long)m.cols());
      for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) {
          double e = i == j ? 0.0 : d(v[std::min(i, j)], v[std::max(i, j)]);
          SIM_CHECK(same_bits(m(i, j), e), "wrong-entry", "entry (%zu,%zu) of the parallel matrix of %zu elements is %.17g instead of %.17g", i, j, v.size(), m(i, j), e);
          SIM_CHECK(same_bits(s(i, j), e), "wrong-serial-entry", "entry (%zu,%zu) of the serial matrix of %zu elements is %.17g instead of %.17g", i, j, v.size(), s(i, j), e);
        }
    } else if (kind == 1) {
      auto a = points<P>(6, choose(2), "first");
      auto b = points<Q>(6, choose(2), "second");
      std::function<double(const P&, const Q&)> d = [](const P& p, const Q& q) { return dist(p.x, p.y, q.x, q.y) + p.id * 100 + q.id * 10000; };
      Eigen::MatrixXd m = arc_helpers::BuildDistanceMatrixParallel(a, b, d), s = arc_helpers::BuildDistanceMatrixSerial(a, b, d);
      NoPreempt np;
      event("two sets %zu x %zu", a.size(), b.size());
      for (int k = 0; k < 2; k++) {
        const Eigen::MatrixXd& x = k ? s : m;
        SIM_CHECK(x.rows() == (long)a.size() && x.cols() == (long)b.size(), "shape", "matrix of %zu and %zu elements is %ldx%ld", a.size(), b.size(), (long)x.rows(), (long)x.cols());
        for (size_t i = 0; i < a.size(); i++)
          for (size_t j = 0; j < b.size(); j++)
            SIM_CHECK(same_bits(x(i, j), d(a[i], b[j])), "wrong-entry", "entry (%zu,%zu) of the %s matrix of %zu and %zu elements is %.17g instead of %.17g", i, j, k ? "serial" : "parallel", a.size(), b.size(), x(i, j), d(a[i], b[j]));
      }
    } else {
      uint32_t n = kind == 2 ? 1 + choose(8) : 5;
      bool fine = choose(2);
      Eigen::Matrix<double, 3, Eigen::Dynamic> set(3, n);
      for (uint32_t i = 0; i < n; i++)
        for (int k = 0; k < 3; k++) set(k, i) = fine ? (double)choose(1 << 24) / (1 << 18) : (double)choose(4);
      Eigen::MatrixXd m, root;
      if (kind == 2) {
        m = EigenHelpers::CalculateSquaredDistanceMatrix(set);
        root = EigenHelpers::CalculateDistanceMatrix(set);
      } else {
        Eigen::Matrix<double, 3, 5> fix = set;
        Eigen::Matrix<double, 5, 5> fm = EigenHelpers::CalculateSquaredDistanceMatrix(fix);
        m = fm;
        Eigen::Matrix<double, 5, 5> fr = EigenHelpers::CalculateDistanceMatrix(fix);
        root = fr;
      }
      int om = config().omp_max;
      config().omp_max = 1;
      Eigen::MatrixXd one = EigenHelpers::CalculateSquaredDistanceMatrix(set);
      config().omp_max = om;
      NoPreempt np;
      event("squared distances of %u points", n);
      SIM_CHECK(m.rows() == (long)n && m.cols() == (long)n, "shape", "matrix of %u points is %ldx%ld", n, (long)m.rows(), (long)m.cols());
      for (uint32_t i = 0; i < n; i++)
        for (uint32_t j = 0; j < n; j++) {
          double e = 0;
          for (int k = 0; k < 3; k++) e += (set(k, i) - set(k, j)) * (set(k, i) - set(k, j));
          SIM_CHECK(std::fabs(m(i, j) - e) <= 1e-12 * (1 + e), "wrong-square", "squared distance (%u,%u) is %.17g instead of %.17g", i, j, m(i, j), e);
          SIM_CHECK(same_bits(m(i, j), one(i, j)), "thread-dependent", "squared distance (%u,%u) depends on the team: %.17g or %.17g", i, j, m(i, j), one(i, j));
          SIM_CHECK(std::fabs(root(i, j) - std::sqrt(e)) <= 1e-9 * (1 + e), "wrong-root", "distance (%u,%u) is %.17g instead of %.17g", i, j, root(i, j), std::sqrt(e));
        }
    }
  }
}

BUILD(C10) {
  team_setup();
  uint32_t rounds = 1 + choose(2);
  for (uint32_t r = 0; r < rounds; r++) {
    auto items = points<P>(12, choose(2), "items");
    size_t n = items.size(), K = choose((uint32_t)n + 3, "K");
    Q cur;
    cur.x = choose(4); cur.y = choose(4);
    uint32_t inf_mask = choose(5) == 4 ? choose(1u << 12) : 0;
    std::function<double(const P&, const Q&)> d = [=](const P& p, const Q& q) { return (inf_mask >> p.id) & 1 ? INFINITY : dist(p.x, p.y, q.x, q.y); };
    auto par = arc_helpers::GetKNearestNeighborsParallel(items, cur, d, K);
    auto ser = arc_helpers::GetKNearestNeighborsSerial(items, cur, d, K);
    NoPreempt np;
    event("n=%zu K=%zu -> %zu", n, K, par.size());
    std::vector<double> truth;
    for (auto& i : items) truth.push_back(d(i, cur));
    std::vector<double> sorted = truth;
    std::sort(sorted.begin(), sorted.end());
    size_t finite = 0;
    for (double x : truth) finite += !std::isinf(x);
    size_t want = std::min(K, n), least = std::min(want, finite);
    for (int s = 0; s < 2; s++) {
      auto& got = s ? ser : par;
      const char* nm = s ? "sequential" : "parallel";
      std::set<int64_t> seen;
      std::vector<double> ds;
      for (auto& e : got) {
        if (s && e.first == -1 && std::isinf(e.second)) continue;  // the sequential query pads with placeholders
        SIM_CHECK(e.first >= 0 && e.first < (int64_t)n, "bad-index", "the %s query returned index %ld of %zu items", nm, (long)e.first, n);
        SIM_CHECK(seen.insert(e.first).second, "duplicate", "the %s query returned item %ld twice", nm, (long)e.first);
        SIM_CHECK(same_bits(e.second, truth[e.first]), "wrong-distance", "the %s query reports distance %.17g for item %ld instead of %.17g", nm, e.second, (long)e.first, truth[e.first]);
        ds.push_back(e.second);
      }
      SIM_CHECK(got.size() <= want && ds.size() >= least, "wrong-count", "the %s query for %zu of %zu items (%zu at finite distance) returned %zu", nm, K, n, finite, ds.size());
      std::sort(ds.begin(), ds.end());
      for (size_t i = 0; i < ds.size(); i++)
        SIM_CHECK(same_bits(ds[i], sorted[i]), "not-nearest", "the %s query for %zu of %zu items returned distance %.17g as number %zu although one at %.17g exists", nm, K, n, ds[i], i + 1, sorted[i]);
    }
  }
}

BUILD(C11) {
  team_setup();
  uint32_t rounds = 1 + choose(2);
  for (uint32_t r = 0; r < rounds; r++) {
    auto a = points<P>(9, choose(2), "first");
    auto b = points<Q>(6, choose(2), "second");
    std::function<double(const P&, const Q&)> d = [](const P& p, const Q& q) { return dist(p.x, p.y, q.x + 0.25, q.y); };
    double got = simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(a, b, d);
    NoPreempt np;
    double want = 0;
    for (auto& p : a) {
      double m = INFINITY;
      for (auto& q : b) m = std::min(m, d(p, q));
      want = std::max(want, m);
    }
    event("%zu x %zu -> %.17g", a.size(), b.size(), got);
    SIM_CHECK(same_bits(got, want), "wrong-value", "the Hausdorff distance of %zu to %zu points is %.17g instead of %.17g", a.size(), b.size(), got, want);
  }
}

using simple_hierarchical_clustering::SimpleHierarchicalClustering;
BUILD(C12) {
  team_setup();
  bool distinct = choose(3) != 0;
  auto v = points<P>(8, distinct, "size");
  size_t n = v.size();
  auto strat = choose(2) ? simple_hierarchical_clustering::COMPLETE_LINK : simple_hierarchical_clustering::SINGLE_LINK;
  bool complete = strat == simple_hierarchical_clustering::COMPLETE_LINK;
  std::function<double(const P&, const P&)> d = [](const P& a, const P& b) { return dist(a.x, a.y, b.x, b.y); };
  double thr;
  switch (choose(6)) {
    case 0: thr = 0; break;
    case 1: thr = INFINITY; break;
    case 2: thr = 100; break;
    case 3: thr = n >= 2 ? d(v[0], v[1]) : 1; break;
    default: thr = distinct ? choose(16000) / 1000.0 : choose(50) / 10.0; break;
  }
  std::pair<std::vector<std::vector<P>>, double> res;
  if (choose(2)) res = SimpleHierarchicalClustering::Cluster(v, d, thr, strat);
  else {
    Eigen::MatrixXd m(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m(i, j) = i == j ? 0 : d(v[std::min(i, j)], v[std::max(i, j)]);
    res = SimpleHierarchicalClustering::Cluster(v, m, thr, strat);
  }
  NoPreempt np;
  event("n=%zu threshold %.17g %s -> %zu clusters, %.17g", n, thr, complete ? "complete" : "single", res.first.size(), res.second);
  auto link = [&](const std::vector<int>& a, const std::vector<int>& b) {
    double lo = INFINITY, hi = 0;
    for (int i : a) for (int j : b) { double x = d(v[std::min(i, j)], v[std::max(i, j)]); lo = std::min(lo, x); hi = std::max(hi, x); }
    return complete ? hi : lo;
  };
  std::vector<std::vector<int>> got;
  std::vector<int> cnt(n, 0);
  for (auto& c : res.first) {
    std::vector<int> g;
    for (auto& p : c) {
      SIM_CHECK(p.id >= 0 && p.id < (int)n && same_bits(p.x, v[p.id].x) && same_bits(p.y, v[p.id].y), "foreign-element", "a cluster holds an element that was not in the input");
      cnt[p.id]++;
      g.push_back(p.id);
    }
    SIM_CHECK(!g.empty(), "empty-cluster", "an empty cluster was returned");
    std::sort(g.begin(), g.end());
    got.push_back(g);
  }
  for (size_t i = 0; i < n; i++) SIM_CHECK(cnt[i] == 1, "not-a-partition", "element %zu is in %d clusters", i, cnt[i]);
  if (complete)
    for (auto& c : got) for (int i : c) for (int j : c) if (i < j) SIM_CHECK(d(v[i], v[j]) <= thr, "too-wide", "a complete-link cluster holds elements %g apart at threshold %g", d(v[i], v[j]), thr);
  double closest = INFINITY;
  for (size_t i = 0; i < got.size(); i++) for (size_t j = i + 1; j < got.size(); j++) closest = std::min(closest, link(got[i], got[j]));
  SIM_CHECK(got.size() < 2 || closest > thr, "stopped-early", "merging stopped although the closest clusters are %.17g apart at threshold %.17g", closest, thr);
  SIM_CHECK(same_bits(res.second, closest), "closest-distance", "the reported closest distance is %.17g but the closest remaining pair is %.17g apart", res.second, closest);
  // reference: repeatedly merge the closest pair
  std::set<double> all;
  bool ties = false;
  for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (!all.insert(d(v[i], v[j])).second) ties = true;
  if (!ties) {
    std::vector<std::vector<int>> ref;
    for (size_t i = 0; i < n; i++) ref.push_back({(int)i});
    for (;;) {
      double best = INFINITY; size_t bi = 0, bj = 0;
      for (size_t i = 0; i < ref.size(); i++) for (size_t j = i + 1; j < ref.size(); j++) if (link(ref[i], ref[j]) < best) { best = link(ref[i], ref[j]); bi = i; bj = j; }
      if (std::isinf(best) || best > thr) break;
      ref[bi].insert(ref[bi].end(), ref[bj].begin(), ref[bj].end());
      std::sort(ref[bi].begin(), ref[bi].end());
      ref.erase(ref.begin() + bj);
    }
    std::set<std::vector<int>> A(ref.begin(), ref.end()), B(got.begin(), got.end());
    SIM_CHECK(A == B, "different-clusters", "%zu clusters differ from the %zu of the sequential algorithm", got.size(), ref.size());
    probe("compared with reference");
  }
}

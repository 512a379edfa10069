// C64: trajectories put together piece by piece, with failing allocations, times that do not fit, refused pieces and several threads.
#include "sim.hpp"
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include <arc_utilities/trajectory_utils.h>
using namespace sim;
typedef trajectory_msgs::JointTrajectory Traj;
typedef trajectory_msgs::JointTrajectoryPoint Point;

static bool same(const Point& a, const Point& b) {
  return a.positions == b.positions && a.velocities == b.velocities && a.accelerations == b.accelerations && a.effort == b.effort && a.time_from_start == b.time_from_start;
}
static void equal(const Traj& got, const Traj& want, const char* who) {
  SIM_CHECK(got.joint_names == want.joint_names, "joint-names", "%s has %zu joint names, not the %zu it should have, or other ones", who, got.joint_names.size(), want.joint_names.size());
  SIM_CHECK(got.header.frame_id == want.header.frame_id && got.header.seq == want.header.seq && got.header.stamp.sec == want.header.stamp.sec && got.header.stamp.nsec == want.header.stamp.nsec,
            "header", "%s has another header: frame '%s', it should be '%s'", who, got.header.frame_id.c_str(), want.header.frame_id.c_str());
  SIM_CHECK(got.points.size() == want.points.size(), "points", "%s has %zu points and should have %zu", who, got.points.size(), want.points.size());
  for (size_t i = 0; i < got.points.size(); i++) {
    const ros::Duration &a = got.points[i].time_from_start, &b = want.points[i].time_from_start;
    SIM_CHECK(a == b, "time", "point %zu of %s is at %d.%09d s and should be at %d.%09d s", i, who, a.sec, a.nsec, b.sec, b.nsec);
    SIM_CHECK(same(got.points[i], want.points[i]), "values", "point %zu of %s has other values", i, who);
  }
}
static std::vector<std::string> names(uint32_t k) {
  switch (k) {
    case 0: return {"shoulder", "elbow"};
    case 1: return {};
    case 2: return {"shoulder"};
    case 3: return {"shoulder", "elbow", "wrist_with_a_name_that_is_longer_than_a_short_string"};
    case 4: return {"elbow", "shoulder"};
    case 5: return {"shoulder", "wrist"};
    default: return {"shoulder", ""};
  }
}
static uint32_t g_serial;
static Traj draw(uint32_t usual) {
  Traj t;
  t.joint_names = names(choose(3) ? usual : choose(7, "joint names"));
  t.header.seq = choose(3); t.header.stamp.sec = choose(4); t.header.stamp.nsec = choose(2);
  t.header.frame_id = std::vector<std::string>{"", "base", "a_frame_whose_name_does_not_fit_a_short_string"}[choose(3, "frame")];
  uint32_t n = choose(2) ? 1 + choose(4, "points") : choose(2) ? 0 : choose(9, "points");
  int64_t at = 0;
  for (uint32_t i = 0; i < n; i++) {
    Point p;
    double v = (double)(++g_serial);
    for (size_t j = 0; j < t.joint_names.size(); j++) p.positions.push_back(v + 0.1 * (double)j);
    if (choose(2)) p.velocities.assign(t.joint_names.size(), -v);
    if (choose(3) == 2) p.accelerations.assign(t.joint_names.size(), v / 3);
    if (choose(3) == 2) p.effort.assign(1, v * 1e9);
    switch (choose(6, "time")) {
      case 0: at += (int64_t)choose(2000) * 1000000; break;
      case 1: at += 1 + choose(3); break;
      case 2: at += 999999999; break;
      case 3: break;
      case 4: at += (int64_t)choose(100000) * 1234567891LL; break;
      default:
        if (choose(6) == 5) at = choose(2) ? (int64_t)INT32_MAX * 1000000000LL + (choose(2) ? 999999999 : 0) : choose(2) ? -(int64_t)choose(3000) * 1000000 : (int64_t)INT32_MIN * 1000000000LL;
        else at += 500000000;
    }
    at = std::min<int64_t>(at, (int64_t)INT32_MAX * 1000000000LL + 999999999);
    p.time_from_start.fromNSec(at);
    t.points.push_back(p);
  }
  if (choose(4) == 3) t.points.reserve(n + choose(8));
  return t;
}
// what putting b behind a gives; false if it is to be refused
static bool expected(const Traj& a, const Traj& b, Traj& out) {
  out = a;
  if (a.joint_names.empty()) out.joint_names = b.joint_names;
  else if (a.joint_names != b.joint_names) { probe(a.joint_names.size() > b.joint_names.size() ? "fewer_names" : a.joint_names.size() < b.joint_names.size() ? "more_names" : "other_names"); return false; }
  if (a.header.frame_id.empty()) out.header.frame_id = b.header.frame_id;
  const int64_t last = a.points.empty() ? 0 : a.points.back().time_from_start.toNSec();
  std::vector<Point> add = b.points;
  for (Point& p : add) {
    const int64_t t = last + p.time_from_start.toNSec();
    if (t < (int64_t)INT32_MIN * 1000000000LL || t > (int64_t)INT32_MAX * 1000000000LL + 999999999) { probe("time_does_not_fit"); return false; }
    p.time_from_start.fromNSec(t);
    out.points.push_back(p);
  }
  return true;
}
static void work(const std::vector<Traj>& pieces, uint32_t usual, bool mem) {
  std::vector<Traj> own;
  { NoPreempt np; for (uint32_t i = 1 + choose(2); i-- > 0;) own.push_back(choose(2) ? Traj() : draw(usual)); }
  for (uint32_t k = 1 + choose(7, "appends"); k-- > 0;) {
    const size_t i = choose((uint32_t)own.size()), j = choose((uint32_t)(own.size() + 2 * pieces.size()));
    const bool shared = j >= own.size();
    const Traj& b = shared ? pieces[(j - own.size()) % pieces.size()] : own[j];
    Traj want;
    std::vector<Traj> before;
    bool ok;
    { NoPreempt np; before = own; ok = expected(own[i], b, want); if (!shared && i == j) probe("to_itself"); }
    // when a failed attempt changed nothing, the same one succeeds once there is memory
    for (int attempt = 0; attempt < 2; attempt++) {
      bool done = false, memory = mem && attempt == 0;
      std::string err;
      bool oom = false;
      try {
        alloc_arm(memory);
        trajectory_utils::append(own[i], b);
        alloc_arm(false);
        done = true;
      } catch (const std::bad_alloc&) { alloc_arm(false); oom = true;
      } catch (const std::exception& x) { alloc_arm(false); NoPreempt np; err = x.what(); }
      NoPreempt np;
      event("%zu points and %zu points: %s", before[i].points.size(), b.points.size(), done ? "appended" : oom ? "no memory" : "refused");
      if (oom) { SIM_CHECK(memory, "unexpected-exception", "bad_alloc with memory left"); probe("out_of_memory"); }
      SIM_CHECK(!done || ok, "not-refused", "a trajectory with joints that differ or with times that do not fit was appended");
      SIM_CHECK(done || oom || !ok, "unexpected-exception", "appending raised %s", err.c_str());
      equal(own[i], done ? want : before[i], done ? "the trajectory that was extended" : "after a failure, the trajectory");
      for (size_t m = 0; m < own.size(); m++) if (m != i) equal(own[m], before[m], "a trajectory that was not extended");
      if (done || !oom) break;
    }
    NoPreempt np;
    if (choose(6) == 5) own[i] = Traj();
    if (own[i].points.size() > 60) own[i].points.resize(3);
  }
}
SCENARIO(C64) {
  const uint32_t nthreads = choose(4) == 3 ? 2 : 1;
  const bool mem = choose(2, "memory") == 1;
  if (mem) alloc_faults(1 + choose(24));
  g_serial = 0;
  const uint32_t usual = choose(3) ? 0 : choose(7);
  std::vector<Traj> pieces;
  for (uint32_t i = 1 + choose(3); i-- > 0;) pieces.push_back(draw(usual));
  const std::vector<Traj> keep = pieces;
  nontrivial();
  if (nthreads == 1) work(pieces, usual, mem);
  else {
    std::vector<int> t;
    for (uint32_t i = 0; i < nthreads; i++) t.push_back(spawn([&] { work(pieces, usual, mem); }, "assembler"));
    for (int x : t) join(x);
  }
  for (size_t i = 0; i < pieces.size(); i++) equal(pieces[i], keep[i], "a piece that was appended");
}

// C57: robot models stand where they were last put, whatever happened before, was refused or runs at the same time.
#include "sim.hpp"
#include <arc_utilities/simple_robot_models.hpp>
#include <cmath>
#include <cstring>
#include <memory>
using namespace sim;
using simple_linked_robot_model::RobotJoint;
using simple_linked_robot_model::RobotLink;
using simple_linked_robot_model::SimpleJointModel;
using simple_linked_robot_model::SimpleLinkedConfiguration;
using simple_linked_robot_model::SimpleLinkedRobot;
using Eigen::Isometry3d;
using Eigen::Vector3d;

static double wrapped(double v) { double r = std::remainder(v, 2 * M_PI); return r; }  // [-pi, pi]
static double turn(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
static bool close(const Isometry3d& a, const Isometry3d& b, double tol = 1e-8) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= tol; }
static Vector3d some_axis() {
  switch (choose(5, "axis")) {
    case 0: return Vector3d::UnitZ();
    case 1: return Vector3d::UnitX();
    case 2: return -Vector3d::UnitY();
    case 3: return Vector3d(1, 1, 0).normalized();
    default: return Vector3d(1, -2, 2) / 3.0;
  }
}
static Isometry3d some_pose() {
  if (choose(4) == 0) return Isometry3d::Identity();
  Vector3d t(choose(9) * 0.5 - 2, choose(9) * 0.5 - 2, choose(9) * 0.5 - 2);
  return Eigen::Translation3d(t) * Eigen::Quaterniond(Eigen::AngleAxisd(choose(8) * 0.7, some_axis()));
}
static double some_value() {
  switch (choose(6, "value")) {
    case 0: return 0;
    case 1: return choose(13) * 0.5 - 3;
    case 2: return M_PI * (choose(2) ? 1 : -1);
    case 3: return choose(2) ? 1e4 : -37.5;
    case 4: return std::nextafter(M_PI, choose(2) ? 4 : 3) * (choose(2) ? 1 : -1);
    default: return (choose(2001) - 1000.0) / 250;
  }
}

// ---------------------------------------------------------------- the reference: a description and the values it was put at
struct Desc {
  uint32_t links = 1;
  struct J { uint32_t parent, child; int type; double lo, hi; Vector3d axis; Isometry3d at; std::string name; };
  std::vector<J> joints;  // in the order they are listed
  std::vector<std::string> names;
  std::vector<size_t> active() const { std::vector<size_t> a; for (size_t i = 0; i < joints.size(); i++) if (joints[i].type) a.push_back(i); return a; }
  double limited(size_t j, double v) const {
    if (joints[j].type == 2) return wrapped(v);
    return v < joints[j].lo ? joints[j].lo : v > joints[j].hi ? joints[j].hi : v;
  }
  Isometry3d fk(uint32_t link, const Isometry3d& base, const std::vector<double>& values) const {  // values of the active joints
    if (link == 0) return base;
    size_t a = 0;
    for (size_t i = 0; i < joints.size(); i++) {
      const J& j = joints[i];
      if (j.child == link) {
        Isometry3d p = fk(j.parent, base, values) * j.at;
        if (j.type == 0) return p;
        if (j.type == 4) return p * Eigen::Translation3d(j.axis * values[a]);
        return p * Isometry3d(Eigen::AngleAxisd(values[a], j.axis));
      }
      if (j.type) a++;
    }
    violation("harness", "link without joint");
  }
};
struct State { Isometry3d base = Isometry3d::Identity(); std::vector<double> q; };
typedef simple_robot_models::PointSphereBasicLinkedRobot Geo;
struct Robot { std::unique_ptr<SimpleLinkedRobot> r; State s; uint32_t set = 0; };

static SimpleLinkedConfiguration config_of(const Desc& d, const std::vector<double>& v) {
  SimpleLinkedConfiguration c;
  std::vector<size_t> act = d.active();
  for (size_t i = 0; i < v.size(); i++) {
    const Desc::J& j = d.joints[act[i % act.size()]];
    c.push_back(SimpleJointModel(std::make_pair(-1e9, 1e9), v[i], (SimpleJointModel::JOINT_TYPE)(j.type == 2 ? 1 : j.type)));
  }
  return c;
}
static void compare(const Desc& d, const SimpleLinkedRobot& r, const State& s, const char* when) {
  std::vector<size_t> act = d.active();
  const SimpleLinkedConfiguration& c = r.GetPosition();
  SIM_CHECK(c.size() == act.size(), "position", "%s the position has %zu joints instead of %zu", when, c.size(), act.size());
  std::vector<double> q;
  for (size_t i = 0; i < act.size(); i++) {
    const Desc::J& j = d.joints[act[i]];
    double v = c[i].GetValue();
    q.push_back(v);
    bool ok = j.type == 2 ? turn(v, s.q[i]) <= 1e-8 && v <= M_PI + 1e-12 && v >= -M_PI - 1e-12 : v == s.q[i];
    SIM_CHECK(ok, "position", "%s joint %s stands at %.17g instead of %.17g", when, j.name.c_str(), v, s.q[i]);
    SIM_CHECK((int)c[i].GetType() == j.type, "joint-model", "%s joint %s turned into type %d", when, j.name.c_str(), (int)c[i].GetType());
    if (j.type != 2) SIM_CHECK(c[i].GetLimits() == std::make_pair(j.lo, j.hi), "joint-model", "%s the limits of joint %s are now [%g, %g]", when, j.name.c_str(), c[i].GetLimits().first, c[i].GetLimits().second);
  }
  SIM_CHECK(close(r.GetBaseTransform(), s.base, 0), "base", "%s the base is not where it was put", when);
  SIM_CHECK(close(r.GetInverseBaseTransform() * s.base, Isometry3d::Identity()), "inverse-base", "%s the inverse base transform is not the inverse of the base transform", when);
  auto all = r.GetLinkTransforms();
  auto map = r.GetLinkTransformsMap();
  SIM_CHECK(all.size() == d.links && map.size() == d.links, "links", "%s %zu/%zu links are reported instead of %u", when, all.size(), map.size(), d.links);
  for (uint32_t l = 0; l < d.links; l++) {
    Isometry3d w = d.fk(l, s.base, s.q);
    const char* n = d.names[l].c_str();
    SIM_CHECK(close(all[l], w, 1e-6), "link-pose", "%s link %s is at (%g, %g, %g) instead of (%g, %g, %g) or turned", when, n, all[l].translation()[0], all[l].translation()[1], all[l].translation()[2], w.translation()[0], w.translation()[1], w.translation()[2]);
    SIM_CHECK(close(r.GetLinkTransform(d.names[l]), all[l], 0) && map.count(d.names[l]) && close(map.find(d.names[l])->second, all[l], 0), "link-pose", "%s the ways to ask where link %s is disagree", when, n);
  }
}
static void jacobian(const Desc& d, const SimpleLinkedRobot& r, const State& s) {
  uint32_t l = choose(d.links, "jacobian link");
  Eigen::Vector4d p(choose(5) * 0.5 - 1, choose(5) * 0.5 - 1, choose(5) * 0.5 - 1, 1);
  Eigen::Matrix<double, 3, Eigen::Dynamic> j = r.ComputeLinkPointTranslationJacobian(d.names[l], p);
  Eigen::Matrix<double, 6, Eigen::Dynamic> j6 = r.ComputeLinkPointJacobian(d.names[l], p);
  NoPreempt np;
  SIM_CHECK(j.cols() == (ssize_t)s.q.size() && j6.cols() == j.cols(), "jacobian", "the Jacobian has %zd columns for %zu joints", (ssize_t)j.cols(), s.q.size());
  SIM_CHECK((j6.topRows(3) - j).cwiseAbs().sum() == 0, "jacobian", "the translation Jacobian is not the upper half of the Jacobian");
  for (size_t i = 0; i < s.q.size(); i++) {
    std::vector<double> a = s.q, b = s.q;
    a[i] -= 1e-6; b[i] += 1e-6;
    Isometry3d A = d.fk(l, s.base, a), B = d.fk(l, s.base, b);
    Vector3d w = ((B * p) - (A * p)).head<3>() / 2e-6;
    double scale = 1 + d.fk(l, s.base, s.q).translation().norm() + s.base.translation().norm();
    SIM_CHECK((w - j.col(i)).norm() < 1e-4 * scale, "jacobian", "the Jacobian says link %s moves by (%g, %g, %g) with joint %zu, it moves by (%g, %g, %g)", d.names[l].c_str(), j(0, i), j(1, i), j(2, i), i, w[0], w[1], w[2]);
    Eigen::Matrix3d dr = (B.linear() - A.linear()) / 2e-6 * d.fk(l, s.base, s.q).linear().transpose();
    Vector3d om(dr(2, 1), dr(0, 2), dr(1, 0));
    SIM_CHECK((om - j6.col(i).tail<3>()).norm() < 1e-4, "jacobian", "the Jacobian says link %s turns by (%g, %g, %g) with joint %zu, it turns by (%g, %g, %g)", d.names[l].c_str(), j6(3, i), j6(4, i), j6(5, i), i, om[0], om[1], om[2]);
  }
}

static Desc some_robot() {
  Desc d;
  d.links = 1 + choose(6, "links");
  std::vector<uint32_t> label(d.links);
  for (uint32_t i = 0; i < d.links; i++) label[i] = i;
  for (uint32_t i = 1; i + 1 < d.links; i++) std::swap(label[i], label[i + choose(d.links - i)]);  // the root is link 0
  for (uint32_t i = 0; i < d.links; i++) d.names.push_back("link" + std::to_string(i));
  for (uint32_t i = 1; i < d.links; i++) {
    Desc::J j;
    j.parent = label[choose(2) ? i - 1 : choose(i)];
    j.child = label[i];
    static const int types[] = {1, 2, 4, 0};
    j.type = types[choose(4, "joint type")];
    j.lo = -1.5 + 0.5 * choose(4); j.hi = j.lo + 0.5 * choose(6);
    j.axis = some_axis();
    j.at = some_pose();
    j.name = "joint" + std::to_string(i);
    d.joints.push_back(j);
  }
  if (choose(2)) for (size_t i = 0; i + 1 < d.joints.size(); i++) std::swap(d.joints[i], d.joints[i + choose((uint32_t)(d.joints.size() - i))]);  // in any order
  return d;
}

static void linked() {
  Desc d = some_robot();
  std::vector<size_t> act = d.active();
  std::vector<RobotLink> links;
  std::vector<RobotJoint> joints;
  for (auto& n : d.names) links.push_back(RobotLink(n));
  for (auto& j : d.joints) joints.push_back(RobotJoint(j.at, j.axis, j.parent, j.child, SimpleJointModel(std::make_pair(j.lo, j.hi), choose(3) - 1.0, (SimpleJointModel::JOINT_TYPE)j.type), j.name));
  std::vector<std::unique_ptr<Robot>> robots;
  bool faults = choose(3) == 2;
  auto values = [&](size_t n) { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(some_value()); return v; };
  auto accept = [&](Robot& o, const std::vector<double>& v) { for (size_t i = 0; i < act.size(); i++) o.s.q[i] = d.limited(act[i], v[i]); o.set++; };
  event("%u links, %zu joints that move, %s", d.links, act.size(), faults ? "allocations fail" : "no faults");

  // a description that is not one tree is refused
  if (choose(6) == 5 && !joints.empty()) {
    auto bl = links; auto bj = joints;
    size_t k = choose((uint32_t)bj.size());
    const char* what = "";
    switch (choose(8, "broken description")) {
      case 0: bj[k].ParentLinkIndex() = bj[k].ChildLinkIndex(); what = "a link hangs from itself"; break;
      case 1: bj[k].ChildLinkIndex() = 0; what = "the root hangs from another link"; break;
      case 2: bl.pop_back(); what = "a link is missing"; break;
      case 3: bl[choose(d.links - 1)].LinkName() = bl[d.links - 1].LinkName(); what = "two links have one name"; break;
      case 4: bj[k].ChildLinkIndex() = choose(2) ? d.links + choose(3) : -1 - (int64_t)choose(2); what = "a joint leads to a link that is not there"; break;
      case 6: {
        // a link hangs from one that hangs from it
        std::vector<int64_t> below;
        for (uint32_t l = 1; l < d.links; l++)
          for (uint32_t u = l, n = 0; u != 0 && n < 9; n++) {
            for (auto& j : d.joints) if (j.child == u) { u = j.parent; break; }
            if (u == (uint32_t)bj[k].ChildLinkIndex()) { below.push_back(l); break; }
          }
        if (below.empty()) return;
        bj[k].ParentLinkIndex() = below[choose((uint32_t)below.size())];
        what = "a link hangs from one that hangs from it";
        break;
      }
      case 5: bj[k].ParentLinkIndex() = choose(2) ? d.links + choose(3) : -1 - (int64_t)choose(2); what = "a joint starts at a link that is not there"; break;
      default: {
        if (bj.size() < 2) return;
        size_t m = (k + 1 + choose((uint32_t)bj.size() - 1)) % bj.size();
        if (choose(2)) { bj[k].JointName() = bj[m].JointName(); what = "two joints have one name"; }
        else { bj[k].ChildLinkIndex() = bj[m].ChildLinkIndex(); what = "two joints lead to one link"; }
      }
    }
    event("broken description: %s", what);
    fault("broken_description");
    bool refused = false;
    try { SimpleLinkedRobot r(Isometry3d::Identity(), bl, bj, config_of(d, values(act.size())), std::vector<double>(act.size(), 1.0)); } catch (const std::invalid_argument&) { refused = true; }
    SIM_CHECK(refused, "accepted", "a robot was built although %s", what);
    nontrivial();
    return;
  }

  robots.emplace_back(new Robot);
  robots[0]->s.base = some_pose();
  robots[0]->s.q.resize(act.size());
  { auto v = values(act.size());
    std::vector<double> w(act.size(), 1.0);
    if (choose(4) == 3) {
      std::vector<std::pair<std::string, simple_robot_models::PointSphereGeometry>> g;
      for (auto& n : d.names) g.push_back(std::make_pair(n, simple_robot_models::PointSphereGeometry()));
      robots[0]->r.reset(new Geo(robots[0]->s.base, links, joints, config_of(d, v), w, g, {}));
    } else
      robots[0]->r.reset(new SimpleLinkedRobot(robots[0]->s.base, links, joints, config_of(d, v), w));
    accept(*robots[0], v);
  }
  { NoPreempt np; compare(d, *robots[0]->r, robots[0]->s, "when built"); }
  { auto n = robots[0]->r->GetActiveJointNames();
    SIM_CHECK(n.size() == act.size(), "names", "%zu joint names for %zu joints", n.size(), act.size());
    for (size_t i = 0; i < n.size(); i++) SIM_CHECK(n[i] == d.joints[act[i]].name, "names", "joint %zu is called %s", i, n[i].c_str());
    SIM_CHECK(robots[0]->r->GetLinkNames() == d.names, "names", "the links are called something else"); }

  auto step = [&](Robot& o, bool alone) {
    std::vector<double> v;
    SimpleLinkedConfiguration c;
    bool armed = false, done = false;
    std::string err;
    const char* when = "";
    no_preempt(true);
    uint32_t op = choose(9, "operation");
    const State before = o.s;
    if (choose(4) == 3) {  // only a little away from where it is
      v = o.s.q;
      for (double& x : v) if (choose(2)) x = choose(2) ? x + (choose(3) - 1.0) * std::pow(10.0, -1.0 - choose(7)) : std::nextafter(x, choose(2) ? 9 : -9);
    } else
      v = values(act.size());
    c = config_of(d, v);
    Isometry3d base = some_pose();
    bool arm = faults && alone && choose(2);
    if (arm) { alloc_fault_clear(); alloc_faults(6); }
    no_preempt(false);
    const SimpleLinkedConfiguration* ret = nullptr;
    bool expect_throw = false;
    SimpleLinkedRobot& r = *o.r;
    auto go = [&](const std::function<void()>& f) {
      try { if (arm) alloc_arm(true); f(); alloc_arm(false); done = true; } catch (const std::bad_alloc&) { alloc_arm(false); armed = true; } catch (const std::exception& x) { alloc_arm(false); err = x.what(); }
    };
    switch (op) {
      default: when = "after a new position"; go([&] { ret = &r.SetPosition(c); }); if (done) accept(o, v); break;
      case 4: {
        when = "after a position of the wrong length was refused"; expect_throw = true;
        if (choose(2) && !c.empty()) c.pop_back(); else c.push_back(SimpleJointModel(std::make_pair(-9.0, 9.0), 1.0, SimpleJointModel::REVOLUTE));
        go([&] { r.SetPosition(c); });
        fault("refused_position");
        break;
      }
      case 5: {
        when = "after a damaged position was refused";
        if (c.empty()) return;
        // what a stored position looks like when one value was damaged
        std::vector<uint8_t> buf;
        size_t k = choose((uint32_t)c.size());
        c[k].SerializeSelf(buf);
        double bad = choose(2) ? std::nan("") : choose(2) ? INFINITY : -INFINITY;
        memcpy(&buf[16], &bad, 8);
        try { c[k].DeserializeSelf(buf, 0); } catch (const std::exception&) { return; }
        if (!(std::isnan(c[k].GetValue()) || std::isinf(c[k].GetValue()))) return;
        expect_throw = true;
        go([&] { r.SetPosition(c); });
        fault("damaged_position");
        break;
      }
      case 6: when = "after it was put where it already was"; go([&] { ret = &r.SetPosition(r.GetPosition()); }); break;
      case 7: when = "after the base was moved"; go([&] { r.UpdateBaseTransform(base); }); if (done) o.s.base = base; break;
      case 8: {
        when = "after a stored position was loaded";
        std::vector<uint8_t> buf(choose(4), 0x5a);
        size_t at = buf.size();
        simple_linked_robot_model::SimpleLinkedConfigSerializer::Serialize(c, buf);
        auto back = simple_linked_robot_model::SimpleLinkedConfigSerializer::Deserialize(buf, at);
        SIM_CHECK(back.second == buf.size() - at, "stored", "%zu bytes were stored and %zu read", buf.size() - at, (size_t)back.second);
        go([&] { ret = &r.SetPosition(back.first); });
        if (done) accept(o, v);
      }
    }
    NoPreempt np;
    if (arm) alloc_faults(0);
    event("%s: %s", when, done ? "done" : armed ? "out of memory" : err.c_str());
    if (armed) { SIM_CHECK(alloc_fault_fired(), "bad-alloc", "out of memory was reported although there was enough"); probe("out of memory"); when = "after it ran out of memory"; }
    else if (expect_throw) SIM_CHECK(!done, "accepted", "%s it was not refused", when + 6);
    else SIM_CHECK(done, "refused", "%s: %s", when, err.c_str());
    if (ret) SIM_CHECK(ret == &r.GetPosition(), "position", "the position returned is not the robot's");
    if (armed) {
      // nothing changed
      o.s = before;
    }
    compare(d, r, o.s, when);
    if (o.set > 1) nontrivial();
  };
  uint32_t ops = 1 + choose(16, "operations");
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t k = choose((uint32_t)robots.size());
    Robot& o = *robots[k];
    switch (choose(8, "what")) {
      case 5: {
        if (robots.size() > 3) break;
        std::unique_ptr<Robot> c(new Robot);
        c->s = o.s; c->set = o.set;
        if (choose(2)) c->r.reset(static_cast<SimpleLinkedRobot*>(o.r->Clone())); else c->r.reset(new SimpleLinkedRobot(*o.r));
        event("robot %zu is a copy of %u", robots.size(), k);
        robots.push_back(std::move(c));
        break;
      }
      case 6: {
        if (robots.size() < 2) break;
        uint32_t m = choose((uint32_t)robots.size());
        if (choose(2) && m != k) { robots.erase(robots.begin() + k); event("robot %u gone", k); probe("destroyed"); }
        else { *o.r = *robots[m]->r; o.s = robots[m]->s; event("robot %u := robot %u", k, m); }
        break;
      }
      case 7: {
        if (choose(2)) { jacobian(d, *o.r, o.s); break; }
        // every robot is moved by one thread, all of them are cloned from one; or one that stands still is read by all
        std::vector<int> tids;
        uint32_t m = 1 + choose(3);
        if (robots.size() > 1 && choose(2)) for (auto& x : robots) { Robot* p = x.get(); tids.push_back(spawn([&step, p, m] { for (uint32_t j = 0; j < m; j++) step(*p, false); }, "mover")); }
        else for (uint32_t t = 0; t < 2; t++) tids.push_back(spawn([&, m] { for (uint32_t j = 0; j < m; j++) { if (choose(2)) jacobian(d, *o.r, o.s); else compare(d, *o.r, o.s, "while others read"); } }, "reader"));
        for (int t : tids) join(t);
        probe("threads");
        break;
      }
      default: step(o, true);
    }
    NoPreempt np;
    for (auto& x : robots) compare(d, *x->r, x->s, "later");
  }
  bool refused = false;
  try { robots[0]->r->GetLinkTransform("nowhere"); } catch (const std::invalid_argument&) { refused = true; }
  SIM_CHECK(refused, "unknown-link", "a link that does not exist has a place");
}

template <typename Rob, typename Conf> static void planar(const std::function<Conf()>& some, const std::function<Isometry3d(const Conf&)>& place, const std::function<bool(const Conf&, const Conf&)>& equal,
                                                          const std::function<Conf(const Conf&, int, double)>& move, int dof, bool body) {
  struct R { std::unique_ptr<Rob> r; Conf q; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
  std::vector<std::unique_ptr<R>> rs;
  auto check = [&](R& o, const char* when) {
    SIM_CHECK(equal(o.r->GetPosition(), o.q), "position", "%s the position is not the one it was put at", when);
    Isometry3d w = place(o.q);
    SIM_CHECK(close(o.r->GetLinkTransform("body"), w) && o.r->GetLinkTransforms().size() == 1 && close(o.r->GetLinkTransforms()[0], w) && o.r->GetLinkTransformsMap().count("body") &&
              close(o.r->GetLinkTransformsMap()["body"], w), "link-pose", "%s the body is not where the position puts it", when);
  };
  rs.emplace_back(new R);
  rs[0]->q = some();
  rs[0]->r.reset(new Rob(rs[0]->q, 1.0, 1.0, "body"));
  check(*rs[0], "when built");
  auto jac = [&](R& o) {
    Eigen::Vector4d p(choose(5) * 0.5 - 1, choose(5) * 0.5 - 1, choose(5) * 0.5 - 1, 1);
    auto j = o.r->ComputeLinkPointTranslationJacobian("body", p);
    SIM_CHECK(j.cols() == dof, "jacobian", "the Jacobian has %d columns", (int)j.cols());
    for (int i = 0; i < dof; i++) {
      Vector3d w = ((place(move(o.q, i, 1e-6)) * p) - (place(move(o.q, i, -1e-6)) * p)).template head<3>() / 2e-6;
      SIM_CHECK((w - j.col(i)).norm() < 1e-3, "jacobian", "the Jacobian says the body moves by (%g, %g, %g) in direction %d, it moves by (%g, %g, %g)", j(0, i), j(1, i), j(2, i), i, w[0], w[1], w[2]);
    }
  };
  auto step = [&](R& o) {
    no_preempt(true);
    Conf c = some();
    no_preempt(false);
    const Conf* ret;
    if (choose(5) == 4) ret = &o.r->SetPosition(o.r->GetPosition()); else { ret = &o.r->SetPosition(c); o.q = c; }
    NoPreempt np;
    SIM_CHECK(ret == &o.r->GetPosition(), "position", "the position returned is not the robot's");
    check(o, "after a new position");
    jac(o);
  };
  uint32_t ops = 1 + choose(12);
  for (uint32_t i = 0; i < ops; i++) {
    uint32_t k = choose((uint32_t)rs.size());
    switch (choose(6)) {
      case 3: if (rs.size() < 4) { std::unique_ptr<R> c(new R); c->q = rs[k]->q; c->r.reset(static_cast<Rob*>(rs[k]->r->Clone())); rs.push_back(std::move(c)); } break;
      case 4: if (rs.size() > 1) { uint32_t m = choose((uint32_t)rs.size()); *rs[k]->r = *rs[m]->r; rs[k]->q = rs[m]->q; } break;
      case 5: {
        std::vector<int> tids;
        for (auto& x : rs) { R* p = x.get(); tids.push_back(spawn([&step, p] { step(*p); step(*p); }, "mover")); }
        for (int t : tids) join(t);
        probe("threads");
        break;
      }
      default: step(*rs[k]); if (i) nontrivial();
    }
    NoPreempt np;
    for (auto& x : rs) check(*x, "later");
  }
}

SCENARIO(C57) {
  config().clock_ticks = false;
  switch (choose(6, "model")) {
    case 4: {
      typedef simple_se2_robot_model::SimpleSE2Configuration Q;
      typedef simple_robot_models::PointSphereBasicSE2Robot G; (void)sizeof(G);
      planar<simple_se2_robot_model::SimpleSE2Robot, Q>([] { Q q(some_value(), some_value(), some_value()); return q; },
        [](const Q& q) { return Isometry3d(Eigen::Translation3d(q[0], q[1], 0) * Eigen::AngleAxisd(q[2], Vector3d::UnitZ())); },
        [](const Q& a, const Q& w) { return a[0] == w[0] && a[1] == w[1] && turn(a[2], w[2]) < 1e-8 && std::fabs(a[2]) <= M_PI + 1e-12; },
        [](const Q& q, int i, double e) { Q r = q; r[i] += e; return r; }, 3, false);
      break;
    }
    case 5: {
      typedef Isometry3d Q;
      planar<simple_se3_robot_model::SimpleSE3Robot, Q>([] { return some_pose(); }, [](const Q& q) { return q; }, [](const Q& a, const Q& w) { return close(a, w, 0); },
        [](const Q& q, int i, double e) { Vector3d u = Vector3d::Unit(i % 3); return i < 3 ? Isometry3d(q * Eigen::Translation3d(u * e)) : Isometry3d(q * Eigen::AngleAxisd(e, u)); }, 6, true);
      break;
    }
    default: linked();
  }
}

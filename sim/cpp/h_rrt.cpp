// C38, C39: sampling-based tree planners; samples, neighbours, propagation, callbacks, clock and stop are the simulator's.
#include "sim.hpp"
#include <arc_utilities/simple_rrt_planner.hpp>
#include <cmath>
using namespace sim;
using namespace simple_rrt_planner;

struct St { int64_t id = -1; double x = 0; int mark = 0; };
typedef SimpleRRTPlannerState<St> Node;
typedef std::vector<Node> Tree;
typedef std::vector<std::pair<St, int64_t>> Prop;
typedef std::chrono::duration<double> Dur;
typedef std::vector<std::vector<St>> Paths;
typedef std::map<std::string, double> Stats;

struct Rng {  // the random stream handed to the planners
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  uint64_t s = 0;
  uint32_t extreme = 0;
  uint64_t operator()() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    if (extreme && z % extreme == 0) { fault("extreme_word"); return (z >> 20) & 1 ? ~(uint64_t)0 : 0; }
    return z;
  }
};
struct UserError { int n; };

struct MNode { int64_t id, parent; std::vector<int64_t> kids; };
struct Model {
  std::vector<MNode> n;
  void add(int64_t id, int64_t parent) {
    if (parent >= 0) n[parent].kids.push_back((int64_t)n.size());
    n.push_back({id, parent, {}});
  }
  std::vector<int64_t> chain(int64_t i) const { std::vector<int64_t> r; for (; i >= 0; i = n[i].parent) r.push_back(n[i].id); std::reverse(r.begin(), r.end()); return r; }
};
static void same_tree(const Tree& t, const Model& m, const char* when) {
  SIM_CHECK(t.size() == m.n.size(), "tree-size", "%s: the tree has %zu states instead of %zu", when, t.size(), m.n.size());
  for (size_t i = 0; i < t.size(); i++) {
    SIM_CHECK(t[i].IsInitialized(), "tree-node", "%s: state %zu is not initialised", when, i);
    SIM_CHECK(t[i].GetValueImmutable().id == m.n[i].id, "tree-node", "%s: state %zu of the tree is #%lld instead of #%lld", when, i, (long long)t[i].GetValueImmutable().id, (long long)m.n[i].id);
    SIM_CHECK(m.n[i].parent >= 0 ? t[i].GetParentIndex() == m.n[i].parent : t[i].GetParentIndex() < 0, "tree-link", "%s: state %zu hangs below %lld instead of %lld", when, i, (long long)t[i].GetParentIndex(), (long long)m.n[i].parent);
    auto k = t[i].GetChildIndices(), w = m.n[i].kids;
    std::sort(k.begin(), k.end());
    std::sort(w.begin(), w.end());
    SIM_CHECK(k == w, "tree-link", "%s: state %zu lists %zu children instead of %zu (or others)", when, i, k.size(), w.size());
  }
}
static std::string str(const std::vector<int64_t>& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return "[" + s + "]"; }
static std::vector<int64_t> ids(const std::vector<St>& p) { std::vector<int64_t> r; for (auto& s : p) r.push_back(s.id); return r; }

// One planning episode: the user's functions, what they answered and what must follow from it.
struct Episode {
  int64_t next_id = 100;
  // shape
  uint32_t max_iter = 0, prop_max = 1, prop_empty = 0, goal_mod = 0, bad_link = 0, throw_in = 0, no_nn = 0;
  bool slow = false;
  // progress
  bool stopped = false, ended = false, checked = false, in_iter = false, expect_invalid = false, threw = false;
  uint32_t iters = 0, term_calls = 0, calls = 0, empties = 0, filled = 0;
  int64_t t_first_call = -1, t_last_end = -1, t_first_term = -1;
  double limit = -1;
  int64_t floor_ns = 0;
  bool user_term = false;
  // current iteration
  int64_t target_id = -2, near_index = -1;
  std::vector<std::pair<int64_t, int64_t>> pending;  // (id, parent) still to be added
  size_t added = 0;

  void common() {
    max_iter = choose(9, "iterations");
    prop_max = 1 + choose(4);
    prop_empty = choose(4) ? 0 : 2 + choose(3);
    goal_mod = choose(5) == 4 ? 0 : 1 + choose(12);
    if (chance(1, 12)) bad_link = 1 + choose(6);
    if (chance(1, 12)) throw_in = 1 + choose(20);
    if (chance(1, 10)) no_nn = 1 + choose(6);
    slow = choose(2);
  }
  struct Call {
    Episode& e;
    Call(Episode& ep, const char* what) : e(ep) {
      SIM_CHECK(!e.ended, "call-after-return", "%s was called after planning had returned", what);
      if (e.t_first_call < 0) e.t_first_call = mono_ns();
      if (++e.calls > 200000) violation("no-progress", "planning goes on without end");
      if (e.throw_in && e.calls == e.throw_in) { e.threw = true; fault("user_exception"); throw UserError{(int)e.calls}; }
      event("%s", what);
    }
    ~Call() {
      if (e.slow && choose(3)) { uint32_t k = choose(5); advance(k == 4 ? (int64_t)choose(2000) * 1000000 : (int64_t)choose(4000) * 1000); fault("slow_callback"); }
      e.t_last_end = mono_ns();
    }
  };
  bool goal(const St& s) const { return goal_mod && s.id >= 0 && (s.id * 2654435761u >> 8) % goal_mod == 0; }

  bool term() {
    Call c(*this, "terminate?");
    if (t_first_term < 0) t_first_term = mono_ns();
    term_calls++;
    checked = true;
    if (term_calls > max_iter) stopped = true;
    return stopped;
  }
  // a new iteration draws its target
  void iteration(int64_t solved_before) {
    SIM_CHECK(!in_iter || pending.size() == added, "lost-states", "a new target is drawn although %zu of %zu propagated states were not added to the tree", pending.size() - added, pending.size());
    SIM_CHECK(!stopped, "planned-after-stop", "a target is drawn after the termination check said stop");
    if (user_term) { SIM_CHECK(checked, "unchecked-iteration", "an iteration began without asking the termination check"); checked = false; }
    if (limit >= 0 && t_last_end >= 0 && t_first_call >= 0)
      SIM_CHECK((double)(t_last_end - t_first_call) * 1e-9 <= limit + 1e-9, "over-time", "an iteration began %.9f s after planning began; the limit is %.9f s", (t_last_end - t_first_call) * 1e-9, limit);
    SIM_CHECK(!solved_before, "planned-after-solution", "a target is drawn although a solution was already found");
    iters++;
    in_iter = true;
    pending.clear();
    added = 0;
  }
  int64_t neighbour(const Model& m) {
    if (floor_ns) advance(floor_ns);  // searching takes some time
    if (no_nn && iters == no_nn) { stopped = true; probe("no neighbour"); in_iter = false; return -1 - (int64_t)choose(2); }
    near_index = choose((uint32_t)m.n.size(), "nearest");
    return near_index;
  }
  Prop propagate(const Model& m, const St& from, int64_t to) {
    Call c(*this, "propagate");
    SIM_CHECK(from.id == m.n[near_index].id, "wrong-neighbour", "propagating from #%lld although the nearest neighbour is #%lld", (long long)from.id, (long long)m.n[near_index].id);
    SIM_CHECK(to == target_id, "wrong-target", "propagating towards #%lld although #%lld was drawn", (long long)to, (long long)target_id);
    Prop p;
    uint32_t k = prop_empty && choose(prop_empty) == 0 ? 0 : 1 + choose(prop_max, "states");
    if (!k) empties++; else filled++;
    bool bad = bad_link && iters == bad_link && k;
    uint32_t at = bad ? choose(k) : 0;
    for (uint32_t i = 0; i < k; i++) {
      int64_t rel = i && choose(4) ? (choose(3) ? (int64_t)i - 1 : (int64_t)choose(i)) : choose(6) ? -1 : -2 - (int64_t)choose(3);
      if (bad && i == at) { rel = (int64_t)i + choose(3); expect_invalid = true; fault("bad_link"); }
      St s;
      s.id = next_id++;
      p.push_back({s, rel});
      if (!expect_invalid) pending.push_back({s.id, rel < 0 ? near_index : (int64_t)m.n.size() + rel});
    }
    return p;
  }
  void take_added(Model& m) {  // the next propagated state must be the one just added
    SIM_CHECK(added < pending.size(), "foreign-state", "a state was added that was not propagated");
    m.add(pending[added].first, pending[added].second);
    added++;
  }
  void settle(Model& m) { while (added < pending.size()) take_added(m); }

  void check_times(const Stats& st, int64_t entry_ns, int64_t exit_ns) {
    auto f = st.find("planning_time");
    SIM_CHECK(f != st.end(), "statistics", "no planning time");
    SIM_CHECK(f->second <= (exit_ns - entry_ns) * 1e-9 + 1e-9, "planning-time", "the planning time is %.9f s but the call took %.9f s", f->second, (exit_ns - entry_ns) * 1e-9);
    if (t_first_term >= 0) SIM_CHECK(f->second >= (t_last_end - t_first_term) * 1e-9 - 1e-9, "planning-time", "the planning time is %.9f s but the search took %.9f s", f->second, (t_last_end - t_first_term) * 1e-9);
  }
  void check_stats(const Stats& st, size_t states, size_t solutions) {
    auto get = [&](const char* k) { auto f = st.find(k); SIM_CHECK(f != st.end(), "statistics", "no %s", k); return f->second; };
    SIM_CHECK(get("total_samples") == empties + filled, "statistics", "%g samples reported, %u were propagated", get("total_samples"), empties + filled);
    SIM_CHECK(get("successful_samples") == filled, "statistics", "%g successful samples reported, there were %u", get("successful_samples"), filled);
    SIM_CHECK(get("failed_samples") == empties, "statistics", "%g failed samples reported, there were %u", get("failed_samples"), empties);
    SIM_CHECK(get("total_states") == (double)states, "statistics", "%g states reported, there are %zu", get("total_states"), states);
    SIM_CHECK(get("solutions") == (double)solutions, "statistics", "%g solutions reported, there are %zu", get("solutions"), solutions);
  }
};

// A tree that went to disk and came back
static uint64_t put_st(const St& s, std::vector<uint8_t>& b) { uint64_t n = arc_utilities::SerializeFixedSizePOD<int64_t>(s.id, b); n += arc_utilities::SerializeFixedSizePOD<double>(s.x, b); return n; }
static std::pair<St, uint64_t> get_st(const std::vector<uint8_t>& b, const uint64_t at) {
  St s;
  auto i = arc_utilities::DeserializeFixedSizePOD<int64_t>(b, at);
  auto x = arc_utilities::DeserializeFixedSizePOD<double>(b, at + i.second);
  s.id = i.first; s.x = x.first;
  return {s, i.second + x.second};
}
static Tree reload(const Tree& t) {
  std::vector<uint8_t> buf(choose(4), 0xab);
  uint64_t at = buf.size();
  std::function<uint64_t(const St&, std::vector<uint8_t>&)> ps = put_st;
  std::function<std::pair<St, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> gs = get_st;
  for (auto& n : t) {
    uint64_t before = buf.size(), w = Node::Serialize(n, buf, ps);
    SIM_CHECK(w == buf.size() - before, "saved-size", "saving a state reports %llu bytes, it wrote %llu", (unsigned long long)w, (unsigned long long)(buf.size() - before));
  }
  fs_write("/tree", std::string(buf.begin(), buf.end()));
  std::string back;
  fs_read("/tree", &back);
  std::vector<uint8_t> b2(back.begin(), back.end());
  Tree r;
  for (size_t i = 0; i < t.size(); i++) { auto d = Node::Deserialize(b2, at, gs); at += d.second; r.push_back(d.first); }
  SIM_CHECK(at == b2.size(), "loaded-size", "loading the tree used %llu of %zu bytes", (unsigned long long)at, b2.size());
  probe("reloaded");
  return r;
}
// damage one link; returns false if nothing could be damaged
static bool damage(Tree& t) {
  size_t i = choose((uint32_t)t.size());
  switch (choose(7, "damage")) {
    case 0: t[i].SetParentIndex((int64_t)i); break;
    case 1: t[i].SetParentIndex(-2 - (int64_t)choose(5)); break;
    case 2: t[i].SetParentIndex((int64_t)t.size() + choose(3)); break;
    case 3: t[i].AddChildIndex(choose(2) ? (int64_t)t.size() + choose(3) : -(int64_t)choose(3)); break;
    case 4: {
      if (i == 0) return false;
      Node& p = t[t[i].GetParentIndex()];
      std::vector<int64_t> left;
      for (int64_t c : p.GetChildIndices()) if (c != (int64_t)i) left.push_back(c);
      if (!left.empty() && choose(2)) { p.AddChildIndex(left[choose((uint32_t)left.size())]); probe("child_added_twice"); }
      p.RemoveChildIndex((int64_t)i);
      SIM_CHECK(p.GetChildIndices() == left, "children", "after one of %zu children was taken away, others are missing or there twice", left.size() + 1);
      break;
    }
    case 5: {  // a state that was never filled in, its links being right
      Node n;
      n.GetValueMutable() = t[i].GetValueImmutable();
      n.SetParentIndex(t[i].GetParentIndex());
      for (int64_t c : t[i].GetChildIndices()) n.AddChildIndex(c);
      t[i] = n;
      probe("uninitialised_state");
      break;
    }
    default: {
      if (t.size() < 3 || i == 0) return false;
      size_t j = choose((uint32_t)t.size());
      if ((int64_t)j == t[i].GetParentIndex()) return false;
      if (choose(2)) t[i].SetParentIndex((int64_t)j); else t[j].AddChildIndex((int64_t)i);
    }
  }
  fault("damaged_link");
  return true;
}

// ------------------------------------------------------------------ C38
typedef std::function<int64_t(const Tree&, const St&)> NnFn;
typedef std::function<bool(const St&)> GoalFn;
typedef std::function<St(void)> SampleFn;
typedef std::function<Prop(const St&, const St&)> PropFn;
typedef std::function<bool(void)> TermFn;
typedef std::function<void(Tree&, const int64_t)> CbFn;

static void single(bool big) {
  Tree tree;
  Model m;
  int64_t next_id = 100;
  uint32_t rounds = big ? 1 : 1 + choose(3, "rounds");
  bool have = false;
  for (uint32_t r = 0; r < rounds; r++) {
    Episode e;
    e.common();
    e.next_id = next_id;
    Rng rng;
    rng.s = ((uint64_t)choose(1u << 31, "stream") << 20) + 5;
    rng.extreme = choose(3) ? 0 : 2 + choose(10);
    // 0..3: Plan; 4: Plan with tree; 5..7: PlanMultiPath; 8: PlanMultiPath with state_added
    uint32_t entry = choose(9, "entry point");
    if (big) entry = choose(2);
    bool resume = have && entry >= 7 && choose(4);
    if (big) { e.max_iter = 0; e.goal_mod = 0; e.bad_link = e.throw_in = e.no_nn = 0; e.prop_max = 1; rng.extreme = 0; e.slow = false; }
    bool one = entry <= 4, timed = entry <= 2;
    double bias = (1 + choose(9)) / 10.0;
    e.limit = timed ? choose(4) ? choose(5000) * 1e-6 : choose(3000) * 1e-3 : -1;
    if (big) e.limit = 1.0;
    e.user_term = !timed;
    if (timed && !big) e.floor_ns = 1 + (int64_t)(e.limit * 1e9 / (1 + choose(12)));
    std::vector<int64_t> goals;  // accepted goals in order
    std::vector<int64_t> reported;
    bool in_goal_cb_due = false;
    int64_t start_id = 1, goal_id = 2, last_sample = -2;
    uint32_t from_goal = 0, from_sample = 0;
    size_t scanned = 0;
    bool scanning = true;  // the states already in the tree are looked at before the first iteration
    St start, goal;
    start.id = start_id; goal.id = goal_id;
    if (!big && choose(4) == 0) goal.id = start.id;
    if (!resume) { m = Model(); if (entry != 7 && entry != 8) { m.add(start.id, -1); } }
    bool goal_fn_goal = choose(3) == 0;
    auto accepts = [&](const St& s) { return e.goal(s) || (goal_fn_goal && s.id == 2); };
    auto begin_iter = [&] {
      if (scanning) {
        SIM_CHECK(scanned == m.n.size(), "unscanned", "the search began although %zu of %zu states already in the tree were not checked against the goal", m.n.size() - scanned, m.n.size());
        scanning = false;
      }
      e.iteration(one && !goals.empty());
    };
    SampleFn sample = [&] {
      Episode::Call c(e, "sample");
      begin_iter();
      if (big) advance(2000000);
      St s;
      s.id = last_sample = 1000000 + e.iters;
      from_sample++;
      return s;
    };
    SampleFn goal_sample = [&] {
      Episode::Call c(e, "sample goal");
      begin_iter();
      if (big) advance(2000000);
      St s;
      s.id = last_sample = 2000000 + e.iters;
      from_goal++;
      return s;
    };
    NnFn nn = [&](const Tree& t, const St& target) -> int64_t {
      Episode::Call c(e, "nearest");
      if (entry == 0) {
        // either the goal itself, or what was sampled in this iteration
        if (last_sample != -2) SIM_CHECK(target.id == last_sample, "wrong-target", "the target is #%lld, drawn was #%lld", (long long)target.id, (long long)last_sample);
        else {
          SIM_CHECK(target.id == goal.id, "wrong-target", "the target #%lld is neither drawn nor the goal", (long long)target.id);
          begin_iter();
          from_goal++;
          if (big) advance(2000000);
        }
        last_sample = -2;
      } else SIM_CHECK(target.id == last_sample, "wrong-target", "the target is #%lld, drawn was #%lld", (long long)target.id, (long long)last_sample);
      e.target_id = target.id;
      if (!big) same_tree(t, m, "at a search");
      return e.neighbour(m);
    };
    bool track_added = entry == 8;
    PropFn prop = [&](const St& from, const St& to) { return e.propagate(m, from, to.id); };
    GoalFn goalfn = [&](const St& s) {
      Episode::Call c(e, "goal?");
      if (scanning && scanned < m.n.size()) {
        SIM_CHECK(s.id == m.n[scanned].id, "scan-order", "the goal check looked at #%lld instead of state %zu, #%lld", (long long)s.id, scanned, (long long)m.n[scanned].id);
        if (accepts(s)) { goals.push_back((int64_t)scanned); in_goal_cb_due = true; if (one && goals.size() == 1) probe("start is goal"); }
        scanned++;
      } else {
        if (!track_added) e.take_added(m);
        SIM_CHECK(!m.n.empty() && s.id == m.n.back().id, "goal-check", "the goal check looked at #%lld after #%lld was added", (long long)s.id, (long long)m.n.back().id);
        if (accepts(s)) { goals.push_back((int64_t)m.n.size() - 1); in_goal_cb_due = true; }
      }
      return accepts(s);
    };
    CbFn goal_cb = [&](Tree& t, const int64_t i) {
      Episode::Call c(e, "goal reached");
      SIM_CHECK(in_goal_cb_due && !goals.empty() && i == goals.back(), "goal-callback", "goal callback for state %lld, expected %lld", (long long)i, goals.empty() ? -1LL : (long long)goals.back());
      in_goal_cb_due = false;
      same_tree(t, m, "at a goal callback");
      reported.push_back(i);
      if (choose(2)) t[i].GetValueMutable().mark++;
    };
    CbFn added_cb = [&](Tree& t, const int64_t i) {
      Episode::Call c(e, "state added");
      e.take_added(m);
      SIM_CHECK(i == (int64_t)m.n.size() - 1, "added-callback", "state-added callback for state %lld instead of %zu", (long long)i, m.n.size() - 1);
      same_tree(t, m, "at a state-added callback");
    };
    TermFn term = [&] { return e.term(); };
    // the tree handed in
    bool want_refusal = false;
    if (entry == 4 || entry == 6) { if (choose(2)) tree.clear(); }
    if (entry >= 7 && !resume) {
      tree.clear();
      if (choose(8) == 0) { want_refusal = true; probe("empty tree"); }
      else { m.add(start.id, -1); tree.emplace_back(start); }
    }
    if (resume) {
      if (choose(2)) tree = reload(tree);
      same_tree(tree, m, "before resuming");
      probe("resumed");
    }
    if (entry >= 7 && !tree.empty() && choose(8) == 0 && damage(tree)) want_refusal = true;
    Paths paths;
    Stats st;
    int64_t t0 = mono_ns();
    bool invalid = false, other = false;
    int user_error = 0;
    std::string what;
    const Dur lim(e.limit);
    auto single_result = [&](std::pair<std::vector<St>, Stats> p) { if (!p.first.empty()) paths.push_back(p.first); st = p.second; };
    auto multi_result = [&](std::pair<Paths, Stats> p) { paths = p.first; st = p.second; };
    event("entry %u resume %d limit %g", entry, resume, e.limit);
    try {
      switch (entry) {
        case 0: single_result(SimpleHybridRRTPlanner::Plan(start, goal, nn, goalfn, sample, prop, bias, lim, rng)); break;
        case 1: single_result(SimpleHybridRRTPlanner::Plan(start, nn, goalfn, sample, goal_sample, prop, bias, lim, rng)); break;
        case 2: single_result(SimpleHybridRRTPlanner::Plan(start, nn, goalfn, sample, prop, lim)); break;
        case 3: single_result(SimpleHybridRRTPlanner::Plan(start, nn, goalfn, sample, prop, term)); break;
        case 4: single_result(SimpleHybridRRTPlanner::Plan(tree, start, nn, goalfn, sample, prop, term)); break;
        case 5: multi_result(SimpleHybridRRTPlanner::PlanMultiPath(start, nn, goalfn, goal_cb, sample, prop, term)); break;
        case 6: multi_result(SimpleHybridRRTPlanner::PlanMultiPath(tree, start, nn, goalfn, goal_cb, sample, prop, term)); break;
        case 7: multi_result(SimpleHybridRRTPlanner::PlanMultiPath(tree, nn, goalfn, goal_cb, sample, prop, term)); break;
        default: multi_result(SimpleHybridRRTPlanner::PlanMultiPath(tree, nn, added_cb, goalfn, goal_cb, sample, prop, term)); break;
      }
    } catch (const UserError& u) { user_error = u.n; }
    catch (const std::invalid_argument& x) { invalid = true; what = x.what(); }
    catch (const std::exception& x) { other = true; what = x.what(); }
    e.ended = true;
    int64_t t1 = mono_ns();
    next_id = e.next_id;
    event("-> %zu paths, %zu states, iters %u%s%s", paths.size(), m.n.size(), e.iters, invalid ? " refused" : "", user_error ? " raised" : "");
    SIM_CHECK(!other, "unexpected-exception", "planning raised: %s", what.c_str());
    if (e.threw) { SIM_CHECK(user_error, "swallowed-exception", "an exception of the user's function did not reach the caller"); have = false; continue; }
    if (want_refusal) {
      SIM_CHECK(invalid, "bad-tree-accepted", "planning accepted an empty tree or one with a broken link");
      SIM_CHECK(e.calls == 0, "bad-tree-used", "planning called the user's functions on a tree with a broken link");
      have = false;
      continue;
    }
    if (e.expect_invalid) {
      SIM_CHECK(invalid, "bad-link-accepted", "a propagated state whose parent is itself or comes later was accepted");
      probe("bad link refused");
      have = false;
      continue;
    }
    SIM_CHECK(!invalid, "refused", "planning refused valid arguments: %s", what.c_str());
    SIM_CHECK(e.pending.size() == e.added, "lost-states", "%zu of %zu propagated states were never added", e.pending.size() - e.added, e.pending.size());
    if (scanning) SIM_CHECK(scanned == m.n.size(), "unscanned", "planning returned although %zu of %zu states already in the tree were not checked against the goal", m.n.size() - scanned, m.n.size());
    bool given = entry == 4 || entry >= 6;
    if (given) same_tree(tree, m, "after planning");
    if (!one) { SIM_CHECK(reported == goals, "goal-callback", "%zu goals were accepted, %zu were reported", goals.size(), reported.size()); }
    size_t want = one ? (goals.empty() ? 0 : 1) : goals.size();
    SIM_CHECK(paths.size() == want, "path-count", "%zu paths for %zu accepted goals", paths.size(), goals.size());
    for (size_t i = 0; i < want; i++) {
      auto w = m.chain(goals[i]), g = ids(paths[i]);
      SIM_CHECK(g == w, "wrong-path", "path %zu is %s instead of %s", i, str(g).c_str(), str(w).c_str());
      if (w.size() > 1) nontrivial();
    }
    e.check_stats(st, m.n.size(), goals.size());
    e.check_times(st, t0, t1);
    // it only stops when there is a reason to
    if (timed && goals.empty() && !(e.no_nn && e.iters == e.no_nn))
      SIM_CHECK((t1 - t0) * 1e-9 > e.limit - 1e-9, "stopped-early", "planning gave up after %.9f s; the limit is %.9f s", (t1 - t0) * 1e-9, e.limit);
    if (e.user_term && !(one && !goals.empty())) SIM_CHECK(e.stopped, "stopped-early", "planning returned although nothing said stop");
    if (big) {
      uint32_t n = from_goal + from_sample;
      SIM_CHECK(n >= 450, "harness", "only %u draws", n);
      double sd = std::sqrt(bias * (1 - bias) / n);
      SIM_CHECK(std::fabs((double)from_goal / n - bias) <= 6.5 * sd, "goal-bias", "%u of %u targets were goals, the goal bias is %g", from_goal, n, bias);
      nontrivial();
    }
    have = given;
  }
}
SCENARIO(C38) {
  config().preempt = false;
  config().max_tick_ns = choose(2) ? 1000 : 50000000;
  config().wall_jumps = choose(2);
  bool big = chance(1, 25, "bias");
  if (big) config().clock_ticks = false;
  single(big);
}

// ------------------------------------------------------------------ C39
static void bidirectional(bool big) {
  Model ms, mg;
  Tree ts, tg;
  uint32_t rounds = big ? 1 : 1 + choose(2, "rounds");
  bool have = false;
  int64_t next_id = 100;
  for (uint32_t r = 0; r < rounds; r++) {
    Episode e;
    e.common();
    e.next_id = next_id;
    e.max_iter = choose(14, "iterations");
    Rng rng;
    rng.s = ((uint64_t)choose(1u << 31, "stream") << 20) + 5;
    rng.extreme = choose(3) ? 0 : 2 + choose(10);
    uint32_t entry = choose(4, "entry point");  // 0 Plan, 1 start/goal, 2 start/goal with callbacks, 3 trees
    if (big) { entry = 3; e.max_iter = 500; e.prop_empty = 1; e.bad_link = e.throw_in = e.no_nn = 0; rng.extreme = 0; e.slow = false; e.goal_mod = 0; }
    bool one = entry == 0;
    double bias = choose(4) ? (1 + choose(9)) / 10.0 : (double)choose(2), p_switch = choose(4) ? (1 + choose(9)) / 10.0 : (double)choose(2);
    e.limit = one ? choose(4) ? choose(5000) * 1e-6 : choose(3000) * 1e-3 : -1;
    e.user_term = !one;
    if (one) e.floor_ns = 1 + (int64_t)(e.limit * 1e9 / (1 + choose(14)));
    if (!(entry == 3 && have && choose(4))) {
      ms = mg = Model();
      ms.add(1, -1); mg.add(2, -1);
      ts.clear(); tg.clear();
      St s; s.id = 1; ts.emplace_back(s); s.id = 2; tg.emplace_back(s);
      if (big) {
        for (int i = 0; i < 5; i++) { s.id = next_id++; ts.push_back(Node(s, 0)); ts[0].AddChildIndex(i + 1); ms.add(s.id, 0); s.id = next_id++; tg.push_back(Node(s, i)); tg[i].AddChildIndex(i + 1); mg.add(s.id, i); }
        e.next_id = next_id;
      }
    } else {
      probe("resumed");
      if (choose(2)) { ts = reload(ts); tg = reload(tg); }
    }
    bool want_refusal = false;
    if (entry == 3 && !big && choose(8) == 0) {
      Tree& t = choose(2) ? ts : tg;
      if (choose(3) == 0) { t.clear(); want_refusal = true; }
      else want_refusal = damage(t);
      if (!want_refusal) { same_tree(ts, ms, "harness"); same_tree(tg, mg, "harness"); }
    }
    struct Bridge { int64_t s, g; };
    std::vector<Bridge> bridges, told;
    size_t s0 = ms.n.size(), g0 = mg.n.size(), pairs = 0;
    bool scanning = true, cb_due = false, from_tree = false, fresh_sample = false, any = false;
    int64_t target_index = -1, last_sample = -2;
    bool active_start = true;
    uint32_t changes = 0, tree_draws = 0;
    std::map<int64_t, uint32_t> drawn;
    Model* act = &ms;
    auto conn = [&](int64_t a, int64_t b) { return e.goal_mod && ((uint64_t)(a + b) * 2654435761u >> 8) % e.goal_mod == 0; };
    auto end_scan = [&] {
      if (scanning) SIM_CHECK(pairs == s0 * g0, "unscanned", "the search began although only %zu of %zu pairs of states were checked for a connection", pairs, s0 * g0);
      scanning = false;
    };
    SampleFn sample = [&] {
      Episode::Call c(e, "sample");
      end_scan();
      e.iteration(one && !bridges.empty());
      fresh_sample = true;
      St s;
      s.id = last_sample = 1000000 + e.iters;
      return s;
    };
    NnFn nn = [&](const Tree& t, const St& target) -> int64_t {
      Episode::Call c(e, "nearest");
      SIM_CHECK(!t.empty(), "tree-size", "an empty tree is searched");
      bool is_start = t[0].GetValueImmutable().id == 1;
      act = is_start ? &ms : &mg;
      Model& oth = is_start ? mg : ms;
      if (!fresh_sample) { end_scan(); e.iteration(one && !bridges.empty()); }
      SIM_CHECK(any || is_start, "first-tree", "the goal tree grows first");
      if (any && is_start != active_start) changes++;
      active_start = is_start;
      any = true;
      if (!big) same_tree(t, *act, "at a search");
      from_tree = !fresh_sample;
      target_index = -1;
      if (fresh_sample) SIM_CHECK(target.id == last_sample, "wrong-target", "the target is #%lld, drawn was #%lld", (long long)target.id, (long long)last_sample);
      else {
        for (size_t i = 0; i < oth.n.size(); i++) if (oth.n[i].id == target.id) target_index = (int64_t)i;
        SIM_CHECK(target_index >= 0, "wrong-target", "the target #%lld is neither drawn nor a state of the other tree", (long long)target.id);
        tree_draws++;
        if (big) drawn[target.id]++;
      }
      fresh_sample = false;
      e.target_id = target.id;
      return e.neighbour(*act);
    };
    PropFn prop = [&](const St& from, const St& to) { return e.propagate(*act, from, to.id); };
    auto side = [&](Model& m, int64_t id) { for (size_t i = 0; i < m.n.size(); i++) if (m.n[i].id == id) return (int64_t)i; return (int64_t)-1; };
    bool track_added = entry >= 2;
    std::function<bool(const St&, const St&)> connected = [&](const St& a, const St& b) {
      Episode::Call c(e, "connected?");
      bool yes = conn(a.id, b.id);
      if (scanning) {
        int64_t s = side(ms, a.id), g = side(mg, b.id);
        if (s < 0 && g < 0) { s = side(ms, b.id); g = side(mg, a.id); }
        SIM_CHECK(s >= 0 && g >= 0, "foreign-pair", "states #%lld and #%lld are checked for a connection", (long long)a.id, (long long)b.id);
        pairs++;
        if (yes) { bridges.push_back({s, g}); cb_due = true; }
        return yes;
      }
      if (!track_added) {
        SIM_CHECK(from_tree, "foreign-pair", "a connection is checked although the target was not a state of the other tree");
        e.take_added(*act);
      }
      Model& oth = act == &ms ? mg : ms;
      int64_t n = (int64_t)act->n.size() - 1;
      SIM_CHECK((a.id == act->n[n].id && b.id == e.target_id) || (b.id == act->n[n].id && a.id == e.target_id), "foreign-pair", "states #%lld and #%lld are checked for a connection, not the new state #%lld and its target #%lld", (long long)a.id,
                (long long)b.id, (long long)act->n[n].id, (long long)e.target_id);
      (void)oth;
      if (yes) { bridges.push_back(act == &ms ? Bridge{n, target_index} : Bridge{target_index, n}); cb_due = true; }
      return yes;
    };
    std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bridge_cb = [&](Tree& a, const int64_t i, Tree& b, const int64_t j, const bool flag) {
      Episode::Call c(e, "bridge");
      SIM_CHECK(cb_due && i == bridges.back().s && j == bridges.back().g, "bridge-callback", "bridge callback for states %lld and %lld", (long long)i, (long long)j);
      SIM_CHECK(flag == (scanning || act == &ms), "bridge-callback", "the bridge callback names the wrong active tree");
      cb_due = false;
      same_tree(a, ms, "at a bridge");
      same_tree(b, mg, "at a bridge");
      told.push_back({i, j});
    };
    CbFn added_cb = [&](Tree& t, const int64_t i) {
      Episode::Call c(e, "state added");
      e.take_added(*act);
      SIM_CHECK(i == (int64_t)act->n.size() - 1, "added-callback", "state-added callback for state %lld instead of %zu", (long long)i, act->n.size() - 1);
      same_tree(t, *act, "at a state-added callback");
    };
    // states added without a connection check (the target was sampled) show only later
    TermFn term = [&] {
      if (!track_added && !from_tree) e.settle(*act);
      return e.term();
    };
    St start, goal;
    start.id = 1; goal.id = 2;
    SampleFn sample_s = [&] { if (!track_added && !from_tree) e.settle(*act); return sample(); };
    NnFn nn2 = [&](const Tree& t, const St& s) { if (!track_added && !from_tree && !fresh_sample) e.settle(*act); return nn(t, s); };
    Paths paths;
    Stats st;
    int64_t t0 = mono_ns();
    bool invalid = false, other = false;
    int user_error = 0;
    std::string what;
    event("entry %u limit %g bias %g switch %g", entry, e.limit, bias, p_switch);
    try {
      if (entry == 0) {
        auto p = SimpleHybridBiRRTPlanner::Plan(start, goal, nn2, connected, sample_s, prop, bias, p_switch, Dur(e.limit), rng);
        if (!p.first.empty()) paths.push_back(p.first);
        st = p.second;
      } else {
        auto p = entry == 1 ? SimpleHybridBiRRTPlanner::PlanMultiPath(start, goal, nn2, connected, sample_s, prop, bias, p_switch, term, rng)
                 : entry == 2 ? SimpleHybridBiRRTPlanner::PlanMultiPath(start, goal, nn2, added_cb, connected, bridge_cb, sample_s, prop, bias, p_switch, term, rng)
                              : SimpleHybridBiRRTPlanner::PlanMultiPath(ts, tg, nn2, added_cb, connected, bridge_cb, sample_s, prop, bias, p_switch, term, rng);
        paths = p.first;
        st = p.second;
      }
    } catch (const UserError& u) { user_error = u.n; }
    catch (const std::invalid_argument& x) { invalid = true; what = x.what(); }
    catch (const std::exception& x) { other = true; what = x.what(); }
    e.ended = true;
    int64_t t1 = mono_ns();
    next_id = e.next_id;
    event("-> %zu paths, %zu+%zu states, iters %u%s%s", paths.size(), ms.n.size(), mg.n.size(), e.iters, invalid ? " refused" : "", user_error ? " raised" : "");
    SIM_CHECK(!other, "unexpected-exception", "planning raised: %s", what.c_str());
    if (e.threw) { SIM_CHECK(user_error, "swallowed-exception", "an exception of the user's function did not reach the caller"); have = false; continue; }
    if (want_refusal) {
      SIM_CHECK(invalid, "bad-tree-accepted", "planning accepted an empty tree or one with a broken link");
      SIM_CHECK(e.calls == 0, "bad-tree-used", "planning called the user's functions on a tree with a broken link");
      have = false;
      continue;
    }
    if (e.expect_invalid) {
      SIM_CHECK(invalid, "bad-link-accepted", "a propagated state whose parent is itself or comes later was accepted");
      probe("bad link refused");
      have = false;
      continue;
    }
    SIM_CHECK(!invalid, "refused", "planning refused valid arguments: %s", what.c_str());
    if (!track_added && !from_tree) e.settle(*act);
    SIM_CHECK(e.pending.size() == e.added, "lost-states", "%zu of %zu propagated states were never added", e.pending.size() - e.added, e.pending.size());
    if (scanning) SIM_CHECK(pairs == s0 * g0, "unscanned", "planning returned although only %zu of %zu pairs of states were checked for a connection", pairs, s0 * g0);
    if (entry == 3) { same_tree(ts, ms, "after planning"); same_tree(tg, mg, "after planning"); }
    if (entry >= 2) SIM_CHECK(told.size() == bridges.size(), "bridge-callback", "%zu connections were found, %zu were reported", bridges.size(), told.size());
    size_t want = one ? (bridges.empty() ? 0 : 1) : bridges.size();
    SIM_CHECK(paths.size() == want, "path-count", "%zu paths for %zu connections", paths.size(), bridges.size());
    for (size_t i = 0; i < want; i++) {
      auto w = ms.chain(bridges[i].s), w2 = mg.chain(bridges[i].g), g = ids(paths[i]);
      w.insert(w.end(), w2.rbegin(), w2.rend());
      SIM_CHECK(g == w, "wrong-path", "path %zu is %s instead of %s", i, str(g).c_str(), str(w).c_str());
      if (w.size() > 2) nontrivial();
    }
    e.check_stats(st, ms.n.size() + mg.n.size(), bridges.size());
    auto sw = st.find("active_tree_swaps");
    SIM_CHECK(sw != st.end() && (sw->second == changes || sw->second == changes + 1), "statistics", "%g swaps of the active tree reported, %u were seen", sw == st.end() ? -1 : sw->second, changes);
    if (entry != 3 || true) e.check_times(st, t0, t1);
    bool gave_up = e.no_nn && e.iters == e.no_nn;
    if (one && bridges.empty() && !gave_up) SIM_CHECK((t1 - t0) * 1e-9 > e.limit - 1e-9, "stopped-early", "planning gave up after %.9f s; the limit is %.9f s", (t1 - t0) * 1e-9, e.limit);
    if (e.user_term) SIM_CHECK(e.stopped, "stopped-early", "planning returned although nothing said stop");
    if (bias == 1) SIM_CHECK(tree_draws == e.iters, "tree-bias", "%u of %u targets came from the other tree although all had to", tree_draws, e.iters);
    if (p_switch == 1 && e.iters) SIM_CHECK(changes == e.iters - 1, "switching", "the active tree changed %u times in %u iterations although it had to change each time", changes, e.iters);
    if (big) {
      uint32_t n = e.iters;
      SIM_CHECK(n == 500, "harness", "only %u draws", n);
      SIM_CHECK(std::fabs((double)tree_draws / n - bias) <= 6.5 * std::sqrt(bias * (1 - bias) / n), "tree-bias", "%u of %u targets came from the other tree, the bias is %g", tree_draws, n, bias);
      SIM_CHECK(std::fabs((double)changes / (n - 1) - p_switch) <= 6.5 * std::sqrt(p_switch * (1 - p_switch) / (n - 1)), "switching", "the active tree changed %u times in %u iterations, the probability is %g", changes, n, p_switch);
      if (bias >= 0.5 && p_switch >= 0.3) for (auto* m : {&ms, &mg}) for (auto& x : m->n) SIM_CHECK(drawn[x.id], "never-drawn", "%u targets came from the other tree, none of them was state #%lld", tree_draws, (long long)x.id);
      nontrivial();
    }
    have = entry == 3;
  }
}
SCENARIO(C39) {
  config().preempt = false;
  config().max_tick_ns = choose(2) ? 1000 : 50000000;
  config().wall_jumps = choose(2);
  bool big = chance(1, 25, "biases");
  if (big) config().clock_ticks = false;
  bidirectional(big);
}

// C20: the C++ topic listener on a simulated roscpp.
#include <arc_utilities/listener.hpp>
#include <memory>
using namespace sim;
namespace sr = ros::simros;

struct Msg {
  typedef boost::shared_ptr<Msg> Ptr;
  typedef boost::shared_ptr<Msg const> ConstPtr;
  uint64_t id = 0, words[6] = {};
  explicit Msg(uint64_t i = 0) : id(i) { for (int k = 0; k < 6; k++) words[k] = i * 1000003 + k; }
};
static void whole(const Msg::ConstPtr& m) {
  for (int k = 0; k < 6; k++) SIM_CHECK(m->words[k] == m->id * 1000003 + k, "torn", "message %llu has a foreign part", (unsigned long long)m->id);
}
static const char* TOPICS[] = {"joint_states", "tf"};
static std::string last_ids(const sr::Sub& s) {
  std::string r;
  for (auto& d : s.log) r += std::to_string(d.id) + (d.done < 0 ? "* " : " ");
  return r;
}

SCENARIO(C20) {
  config().clock_ticks = false;
  config().stalls = choose(2);
  ros::NodeHandle nh;
  uint32_t nl = choose(3) ? 1 : 2;
  bool autostart = choose(4) != 0;
  std::vector<std::unique_ptr<Listener<Msg>>> ls;
  std::vector<std::shared_ptr<sr::Sub>> subs;
  uint32_t stopper = choose(4, "controller");   // 0 none, 1 stop/start, 2 shutdown, 3 shutdown early
  for (uint32_t i = 0; i < nl; i++) {
    const char* topic = TOPICS[i == 1 ? choose(2) : 0];
    if (autostart && choose(2)) ls.emplace_back(new Listener<Msg>(nh, topic));      // starting at once is the default
    else ls.emplace_back(new Listener<Msg>(nh, topic, autostart));
    SIM_CHECK(sr::st().subs.size() == i + 1, "subscription", "the listener made %zu subscriptions", sr::st().subs.size() - i);
    subs.push_back(sr::st().subs.back());
  }
  if (!autostart) {
    auto early = ls[0]->get();
    SIM_CHECK(!early, "invented", "a listener that was never started returned a message");
    for (auto& l : ls) l->start();
  }
  // the network: every published message arrives late, twice, out of order or never
  uint32_t count = choose(7, "messages");
  bool lossy = choose(2);
  bool burst = choose(3) == 2;                 // everything at once, readers read without pause
  if (burst) count += 2;
  uint64_t next_id = 0;
  std::vector<int> tids;
  bool publishing = true;
  int pub = spawn([&] {
    struct Packet { int64_t at; uint64_t id; uint32_t topic; Msg::ConstPtr m; };
    std::vector<Packet> air;
    int64_t t = mono_ns();
    for (uint32_t i = 0; i < count; i++) {
      if (!burst) t += (int64_t)choose(4) * 7000000;
      ++next_id;
      Packet p{t, next_id, choose(3) ? 0 : 1u, boost::shared_ptr<Msg const>(new Msg(next_id))};
      if (lossy && choose(6) == 1) { fault("message_lost"); continue; }
      if (lossy && choose(6) == 1) { fault("message_duplicated"); Packet q = p; q.at += choose(4) * 5000000; air.push_back(q); }
      if (lossy && choose(5) == 1) { fault("message_delayed"); p.at += (int64_t)choose(6) * 9000000; }
      air.push_back(p);
    }
    while (!air.empty()) {
      size_t k = 0;
      for (size_t i = 1; i < air.size(); i++) if (air[i].at < air[k].at) k = i;
      Packet p = air[k];
      air.erase(air.begin() + k);
      if (p.at > mono_ns()) sleep_ns(p.at - mono_ns());
      sr::arrive(TOPICS[p.topic], p.m, p.id);
      p.m.reset();
      if (burst) { sr::Sub* q = subs[0].get(); block_until([q] { return !q->pending; }, mono_ns() + 1000000, "queue"); }
      sched_point("published");
    }
    publishing = false;
  }, "network");

  auto check_get = [&](uint32_t k) {
    sr::Sub& s = *subs[k];
    size_t c0 = s.done;
    Msg::ConstPtr m = ls[k]->get();
    NoPreempt np;
    size_t b1 = s.log.size();
    if (!m) { SIM_CHECK(c0 == 0, "lost", "get() returned nothing although %zu messages had been delivered (%s)", c0, last_ids(s).c_str()); return; }
    whole(m);
    bool okay = false;
    for (size_t i = c0 ? c0 - 1 : 0; i < b1; i++) okay = okay || s.log[i].id == m->id;
    event("get -> %llu", (unsigned long long)m->id);
    SIM_CHECK(okay, "stale", "get() returned message %llu; %zu callbacks had completed before the call and %zu had begun at its end (%s)", (unsigned long long)m->id, c0, b1, last_ids(s).c_str());
    if (b1) nontrivial();
  };
  uint32_t readers = choose(3, "readers"), waiters = choose(3, "waiters");
  if (readers + waiters == 0) waiters = 1;
  for (uint32_t r = 0; r < readers; r++) {
    uint32_t k = choose(nl), n = burst ? 6 : 1 + choose(4);
    tids.push_back(spawn([&, k, n] { for (uint32_t i = 0; i < n; i++) { check_get(k); if (!burst && choose(2)) sleep_ns((int64_t)choose(4) * 4000000); } }, "reader"));
  }
  uint32_t waiting = waiters;
  int64_t down_at = -1;
  std::map<int, uint64_t> down_sleeps;
  auto shut = [&] {
    ros::shutdown();
    NoPreempt np;
    if (down_at < 0) { down_at = mono_ns(); down_sleeps = sr::st().sleeps; }
    fault("ros_shutdown");
  };
  for (uint32_t w = 0; w < waiters; w++) {
    uint32_t k = choose(nl);
    static const double freqs[] = {100, 10, 1000, 2};
    double freq = freqs[choose(4)];
    int64_t lag = (int64_t)choose(4) * 6000000;
    tids.push_back(spawn([&, k, freq, lag] {
      if (lag) sleep_ns(lag);
      sr::Sub& s = *subs[k];
      size_t c0;
      { NoPreempt np; c0 = s.done; event("wait begins"); }
      bool down0 = down_at >= 0;
      Msg::ConstPtr m;
      bool threw = false;
      try { m = ls[k]->waitForNew(freq); } catch (const std::exception&) { threw = true; }
      NoPreempt np;
      waiting--;
      uint64_t sl = sr::st().sleeps[current_tid()];
      event("wait -> %s %llu after %llu sleeps", threw ? "error" : "message", m ? (unsigned long long)m->id : 0ull, (unsigned long long)sl);
      nontrivial();
      if (threw) { SIM_CHECK(!sr::st().ok, "wait-error", "waitForNew raised an error although ROS is up"); }
      else {
        SIM_CHECK(m != nullptr, "wait-null", "waitForNew returned no message");
        whole(m);
        bool okay = false;
        for (size_t i = c0; i < s.log.size(); i++) okay = okay || s.log[i].id == m->id;
        SIM_CHECK(okay, "wait-stale", "waitForNew returned message %llu, but %zu of %zu callbacks had completed before the wait began (%s)", (unsigned long long)m->id, c0, s.log.size(), last_ids(s).c_str());
        SIM_CHECK(!down0, "wait-after-shutdown", "waitForNew returned a message although ROS was down before the wait");
      }
      // promptness: the first callback begun after the wait went to sleep for the first time; with stalled threads only polls are counted
      int64_t slack = 100000000, period = (int64_t)(1e9 / freq);
      auto fs = sr::st().first_sleep.find(current_tid());
      size_t b0 = fs == sr::st().first_sleep.end() ? s.log.size() : fs->second[&s];
      if (b0 < s.log.size() && s.log[b0].done >= 0) {
        uint64_t before = s.log[b0].sleeps.count(current_tid()) ? s.log[b0].sleeps[current_tid()] : 0;
        SIM_CHECK(sl <= before + 2, "wait-late", "waitForNew went to sleep %llu more times after a new message was delivered", (unsigned long long)(sl - before));
        SIM_CHECK(config().stalls || mono_ns() <= s.log[b0].done + period + slack, "wait-late", "waitForNew at %g Hz ended %.3f s after a new message was delivered", freq, (mono_ns() - s.log[b0].done) * 1e-9);
      }
      if (down_at >= 0) {
        uint64_t before = down_sleeps.count(current_tid()) ? down_sleeps[current_tid()] : 0;
        SIM_CHECK(config().stalls || mono_ns() <= down_at + period + slack || down0, "shutdown-late", "waitForNew at %g Hz ended %.3f s after ROS went down", freq, (mono_ns() - down_at) * 1e-9);
        SIM_CHECK(sl <= before + 2, "shutdown-late", "waitForNew went to sleep %llu more times after ROS went down", (unsigned long long)(sl - before));
      }
    }, "waiter"));
  }
  int ctl = -1;
  if (stopper == 1) ctl = spawn([&] {
    sleep_ns((int64_t)choose(5) * 3000000);
    uint32_t k = choose(nl);
    ls[k]->stop(); fault("spinner_stopped");
    sleep_ns((int64_t)choose(5) * 3000000);
    ls[k]->start();
  }, "controller");
  if (stopper >= 2) ctl = spawn([&] { sleep_ns((int64_t)choose(stopper == 2 ? 12 : 2) * 3000000); shut(); }, "controller");

  bool destroy_early = waiters == 0 && stopper != 1 && choose(2);
  if (destroy_early) {
    for (int t : tids) join(t);
    sleep_ns((int64_t)choose(6) * 3000000);
    event("destroy listeners");
    ls.clear();                                  // deliveries go on meanwhile
    probe("destroyed_under_traffic");
    join(pub);
  } else {
    join(pub);
    if (ctl >= 0) join(ctl);
    // Faults are over: either new messages keep coming or ROS goes down; every wait must end.
    bool end_down = stopper < 2 && choose(2);
    if (end_down && waiting) shut();
    for (int tries = 0; waiting; tries++) {
      if (tries > 12) violation("no-progress", "a wait did not end although %s", sr::st().ok ? "new messages were delivered" : "ROS is down");
      if (sr::st().ok) for (auto t : TOPICS) { ++next_id; sr::arrive(t, boost::shared_ptr<Msg const>(new Msg(next_id)), next_id); }
      sleep_ns(1200000000);
    }
    for (int t : tids) join(t);
    if (sr::st().ok) {
      for (uint32_t k = 0; k < nl; k++) {
        sr::Sub& s = *subs[k];
        for (int i = 0; i < 20 && (s.pending || s.calling); i++) sleep_ns(50000000);
        SIM_CHECK(!s.pending && !s.calling, "undelivered", "the newest message is not delivered although the listener was started");
        Msg::ConstPtr m = ls[k]->get();
        uint64_t got = m ? m->id : 0;
        event("at rest: %llu", (unsigned long long)got);
        SIM_CHECK(got == s.last_arrived, "not-newest", "at rest the listener of %s returns message %llu but the newest is %llu", s.topic.c_str(), (unsigned long long)got, (unsigned long long)s.last_arrived);
        for (auto& d : s.log) (void)d;
      }
    }
    for (uint32_t k = 0; k < nl; k++) SIM_CHECK(subs[k]->topic == TOPICS[0] || k == 1, "wrong-topic", "the listener subscribed to %s", subs[k]->topic.c_str());
    ls.clear();
  }
  if (destroy_early && ctl >= 0) join(ctl);
}

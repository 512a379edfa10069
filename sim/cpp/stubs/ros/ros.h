// Simulated roscpp: just enough of it for include/arc_utilities/listener.hpp, scheduled by the simulator.
// Follows roscpp 1.14-1.16: bounded subscription queue that drops the oldest message, callbacks run by spinner
// threads, unsubscribing removes queued callbacks and waits for one that is running in another thread.
#pragma once
#include "sim.hpp"
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace ros {
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
struct CallbackQueueInterface { virtual ~CallbackQueueInterface() {} };
namespace simros {
struct Delivery { uint64_t id; int64_t began = -1, done = -1; std::map<int, uint64_t> sleeps; };
struct Sub {
  std::string topic;
  uint32_t qsize = 0;
  boost::function<void(const VoidConstPtr&)> cb;
  class ros::CallbackQueueInterface* queue = nullptr;
  bool live = true;
  int calling = 0, caller = -1;
  uint64_t pending = 0;
  std::vector<Delivery> log;   // every callback begun, in order
  size_t done = 0;             // callbacks completed
  uint64_t last_arrived = 0;   // id of the newest message accepted for this subscription
};
struct State {
  bool ok = true;
  std::vector<std::shared_ptr<Sub>> subs;
  std::map<int, uint64_t> sleeps;    // Rate::sleep calls begun, by thread
  std::map<int, std::map<const Sub*, size_t>> first_sleep;   // callbacks begun at the first of them
  void sleeping() {
    sim::NoPreempt np;
    int t = sim::current_tid();
    if (!sleeps[t]++) for (auto& s : subs) first_sleep[t][s.get()] = s->log.size();
  }
};
inline State& st() { static State* s = new State; return *s; }
}  // namespace simros
struct Exception : std::runtime_error { explicit Exception(const std::string& w) : std::runtime_error(w) {} };
struct InvalidNodeNameException : Exception { InvalidNodeNameException(const std::string& n, const std::string& w) : Exception("Invalid node name [" + n + "]: " + w) {} };
struct InvalidNameException : Exception { explicit InvalidNameException(const std::string& w) : Exception(w) {} };
namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
typedef init_options::InitOption InitOption;
namespace simros {
struct Init { std::vector<std::string> argv; std::string name; uint32_t options; };
struct Boot {
  std::vector<Init> inits;                       // every call of ros::init
  bool initialised = false;
  std::function<void(int at)> hook;              // 0 ros::init entered, 1 about to return, 2 spinner made, 3 spinner about to start
  int spinners = 0, running = 0;                 // objects alive, threads that have not ended
};
inline Boot& boot() { static Boot* b = new Boot; return *b; }
inline void at(int k) { if (boot().hook) boot().hook(k); }
}  // namespace simros
inline void init(int& argc, char** argv, const std::string& name, uint32_t options = 0) {
  {
    sim::NoPreempt np;
    simros::Init i;
    for (int k = 0; k < argc; k++) i.argv.push_back(argv[k]);
    i.name = name; i.options = options;
    simros::boot().inits.push_back(i);
    sim::event("ros::init %s, %d arguments, options %u", name.c_str(), argc, options);
  }
  simros::at(0);
  int full = argc;                               // remappings go to the end
  for (int i = 0; i < argc;) {
    if (std::string(argv[i]).find(":=") != std::string::npos) {
      char* t = argv[i];
      for (int j = i; j < full - 1; j++) argv[j] = argv[j + 1];
      argv[argc - 1] = t;
      argc--;
    } else i++;
  }
  if (!simros::boot().initialised) {
    if (name.empty()) throw InvalidNodeNameException(name, "it must not be empty");
    if (name.find_first_of("/~") != std::string::npos) throw InvalidNodeNameException(name, "node names cannot contain / or ~");
    simros::boot().initialised = true;
    simros::st().ok = true;
  }
  simros::at(1);
}
inline bool isInitialized() { return simros::boot().initialised; }
inline bool ok() { sim::sched_point("ros::ok"); return simros::st().ok; }
inline void shutdown() { simros::st().ok = false; sim::event("ros shutdown"); sim::sched_point("shutdown"); }

// whole seconds and nanoseconds as in rostime: 0 <= nsec < 1e9, the seconds fit 32 bits or it throws
class Duration {
  static void split(int64_t s, int64_t ns, int32_t& sec, int32_t& nsec) {
    int64_t n = ns % 1000000000LL, t = s + ns / 1000000000LL;
    if (n < 0) { n += 1000000000LL; --t; }
    if (t < INT32_MIN || t > INT32_MAX) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = (int32_t)t; nsec = (int32_t)n;
  }
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t ns) { split(s, ns, sec, nsec); }
  explicit Duration(double t) { fromSec(t); }
  Duration& fromSec(double t) {
    if (!(std::fabs(t) < 9e9)) throw std::runtime_error("Duration is out of dual 32-bit range");
    const int64_t s = (int64_t)std::floor(t);
    split(s, (int64_t)std::floor((t - (double)s) * 1e9 + 0.5), sec, nsec);
    return *this;
  }
  Duration& fromNSec(int64_t t) { split(t / 1000000000LL, t % 1000000000LL, sec, nsec); return *this; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + nsec; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double f) const { return Duration(toSec() * f); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return o < *this; }
  bool operator<=(const Duration& o) const { return !(o < *this); }
  bool operator>=(const Duration& o) const { return !(*this < o); }
  bool sleep() const { simros::st().sleeping(); if (toNSec() > 0) sim::sleep_ns(toNSec()); return true; }
};
typedef Duration WallDuration;

class CallbackQueue : public CallbackQueueInterface {
 public:
  struct Item { std::shared_ptr<simros::Sub> sub; VoidConstPtr msg; uint64_t id; };
  std::deque<Item> items;
  bool enabled = true;
  CallbackQueue() {}
  ~CallbackQueue() { items.clear(); }
  bool isEmpty() { return items.empty(); }
  bool empty() { return items.empty(); }
  // Runs one callback; false if there is none.
  bool callOne() {
    Item it;
    {
      sim::NoPreempt np;
      // Callbacks of one subscription are not run concurrently (allow_concurrent_callbacks is off).
      size_t k = 0;
      while (k < items.size() && items[k].sub->calling) k++;
      if (k == items.size()) return false;
      it = items[k];
      items.erase(items.begin() + k);
      it.sub->pending--;
      it.sub->calling++;
      it.sub->caller = sim::current_tid();
      simros::Delivery d;
      d.id = it.id; d.began = sim::mono_ns();
      it.sub->log.push_back(d);
      sim::event("callback %llu", (unsigned long long)it.id);
    }
    sim::sched_point("callback");
    try { it.sub->cb(it.msg); } catch (...) { sim::NoPreempt np; it.sub->calling--; it.sub->caller = -1; throw; }
    {
      sim::NoPreempt np;
      it.sub->log.back().done = sim::mono_ns();
      it.sub->log.back().sleeps = simros::st().sleeps;
      it.sub->done++;
      it.sub->calling--;
      it.sub->caller = -1;
      it.msg.reset();
    }
    sim::sched_point("callback done");
    return true;
  }
  void callAvailable(WallDuration timeout = WallDuration()) {
    if (items.empty() && timeout.toSec() > 0) sim::block_until([this] { return !items.empty(); }, sim::mono_ns() + (int64_t)(timeout.toSec() * 1e9), "callbacks");
    for (size_t n = items.size(); n > 0 && callOne(); n--) {}
  }
  void callOne(WallDuration timeout) { if (items.empty() && timeout.toSec() > 0) sim::block_until([this] { return !items.empty(); }, sim::mono_ns() + (int64_t)(timeout.toSec() * 1e9), "callbacks"); callOne(); }
  void removeByID(const std::shared_ptr<simros::Sub>& s) {
    sim::sched_point("unsubscribe");
    {
      sim::NoPreempt np;
      for (size_t i = 0; i < items.size();) if (items[i].sub == s) items.erase(items.begin() + i); else i++;
      s->live = false;
      s->pending = 0;
    }
    if (s->calling && s->caller != sim::current_tid()) { sim::probe("unsubscribed_during_callback"); sim::block_until([s] { return s->calling == 0; }, -1, "running callback"); }
    { sim::NoPreempt np; s->cb.clear(); }
  }
};
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue* g = new CallbackQueue; return g; }
inline void spinOnce() { getGlobalCallbackQueue()->callAvailable(); }
inline void spin() { while (ok()) getGlobalCallbackQueue()->callAvailable(WallDuration(0.1)); }
namespace simros {
// A message reaches this node: it is put into the queue of every subscription of the topic.
inline void arrive(const std::string& topic, const VoidConstPtr& msg, uint64_t id) {
  sim::NoPreempt np;
  for (auto& s : st().subs) {
    if (!s->live || s->topic != topic || !st().ok) continue;
    CallbackQueue* q = static_cast<CallbackQueue*>(s->queue);
    if (s->qsize && s->pending >= s->qsize) {
      for (size_t i = 0; i < q->items.size(); i++) if (q->items[i].sub == s) { q->items.erase(q->items.begin() + i); s->pending--; break; }
      sim::fault("queue_overflow");
    }
    CallbackQueue::Item it;
    it.sub = s; it.msg = msg; it.id = id;
    q->items.push_back(it);
    s->pending++;
    s->last_arrived = id;
    sim::event("arrived %llu on %s", (unsigned long long)id, topic.c_str());
  }
}
}  // namespace simros

class AsyncSpinner {
  CallbackQueue* q_;
  uint32_t n_;
  struct Run { bool stop = false; std::vector<int> tids; };
  std::shared_ptr<Run> run_;
 public:
  AsyncSpinner(uint32_t threads, CallbackQueue* q = nullptr) : q_(q), n_(threads ? threads : 2) {
    if (!q_) q_ = getGlobalCallbackQueue();
    simros::boot().spinners++;
    try { simros::at(2); } catch (...) { simros::boot().spinners--; throw; }
  }
  ~AsyncSpinner() { stop(); simros::boot().spinners--; }
  AsyncSpinner(const AsyncSpinner&) = delete;
  bool canStart() { return !run_; }
  void start() {
    if (run_) return;
    simros::at(3);
    run_ = std::make_shared<Run>();
    for (uint32_t i = 0; i < n_; i++) {
      std::shared_ptr<Run> r = run_;
      CallbackQueue* q = q_;
      simros::boot().running++;
      r->tids.push_back(sim::spawn([r, q] {
        while (!r->stop && simros::st().ok) {
          sim::block_until([r, q] { return r->stop || !simros::st().ok || !q->isEmpty(); }, -1, "messages");
          if (r->stop || !simros::st().ok) break;
          if (!q->callOne()) sim::sleep_ns(1000000);
        }
        simros::boot().running--;
      }, "spinner"));
    }
  }
  void stop() {
    if (!run_) return;
    std::shared_ptr<Run> r = run_;
    run_.reset();
    r->stop = true;
    for (int t : r->tids) sim::join(t);
  }
};

struct TransportHints {};
struct SubscribeOptions {
  std::string topic;
  uint32_t queue_size = 1;
  boost::function<void(const VoidConstPtr&)> cb;
  CallbackQueueInterface* callback_queue = nullptr;
  VoidConstPtr tracked_object;
  bool allow_concurrent_callbacks = false;
  template <class M>
  static SubscribeOptions create(const std::string& topic, uint32_t queue_size, const boost::function<void(const boost::shared_ptr<M const>&)>& cb,
                                 const VoidConstPtr& tracked, CallbackQueueInterface* queue) {
    SubscribeOptions o;
    o.topic = topic; o.queue_size = queue_size; o.tracked_object = tracked; o.callback_queue = queue;
    o.cb = [cb](const VoidConstPtr& v) { cb(boost::static_pointer_cast<M const>(v)); };
    return o;
  }
};
class Subscriber {
  struct Impl {
    std::shared_ptr<simros::Sub> sub;
    bool done = false;
    ~Impl() { shut(); }
    void shut() { if (done) return; done = true; static_cast<CallbackQueue*>(sub->queue)->removeByID(sub); }
  };
  std::shared_ptr<Impl> impl_;
  friend class NodeHandle;
 public:
  void shutdown() { if (impl_) impl_->shut(); }
  std::string getTopic() const { return impl_ ? impl_->sub->topic : std::string(); }
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return impl_ && !impl_->done ? (void*)1 : nullptr; }
};
// The parameter server: a value of one of the XmlRpc types.
namespace simros {
struct Xml {
  enum Type { Boolean, Int, Double, String, Array, Struct } type = Int;
  bool b = false; int i = 0; double d = 0; std::string s; std::vector<Xml> a;
};
struct Params {
  std::map<std::string, Xml> now;
  std::function<void(const std::string& key, const char* op)> hook;   // called for every request, before it is answered; may change the server
  std::function<bool()> fails;                                        // the request is lost
  uint64_t requests = 0;
  bool get(const std::string& key, Xml& out) {
    sim::sched_point("to the master");
    if (hook) hook(key, "get");
    sim::NoPreempt np;
    requests++;
    if (fails && fails()) return false;
    auto f = now.find(key);
    if (f == now.end()) return false;
    out = f->second;
    return true;
  }
};
inline Params& params() { static Params* p = new Params; return *p; }
inline bool cast(const Xml& x, std::string& v) { if (x.type != Xml::String) { v = "poison"; return false; } v = x.s; return true; }
inline bool cast(const Xml& x, bool& v) { if (x.type != Xml::Boolean) { v = true; return false; } v = x.b; return true; }
inline bool cast(const Xml& x, double& v) { if (x.type == Xml::Int) v = x.i; else if (x.type == Xml::Double) v = x.d; else { v = -7.77e77; return false; } return true; }
inline bool cast(const Xml& x, float& v) { double d; if (!cast(x, d)) { v = -7.77e7f; return false; } v = (float)d; return true; }
inline bool cast(const Xml& x, int& v) { if (x.type == Xml::Double) v = (int)(x.d < 0 ? x.d - 0.5 : x.d + 0.5); else if (x.type == Xml::Int) v = x.i; else { v = -77777777; return false; } return true; }
inline bool cast(const Xml& x, std::vector<bool>& v) { if (x.type != Xml::Array) { v.push_back(true); return false; } v.clear(); for (auto& e : x.a) { bool b; if (!cast(e, b)) return false; v.push_back(b); } return true; }
template <class T> bool cast(const Xml& x, std::vector<T>& v) {
  if (x.type != Xml::Array) return false;
  v.assign(x.a.size(), T());                                          // filled element by element, as roscpp does
  for (size_t i = 0; i < x.a.size(); i++) if (!cast(x.a[i], v[i])) return false;
  return true;
}
}  // namespace simros
class NodeHandle {
  std::string ns_;
  std::string resolve(const std::string& k) const {
    if (!k.empty() && k[0] == '~') throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed");
    if (!k.empty() && k[0] == '/') return k;
    return (ns_ == "/" ? "" : ns_) + "/" + k;
  }
 public:
  NodeHandle(const std::string& ns = "") : ns_(ns.empty() ? "/" : ns[0] == '/' ? ns : "/" + ns) {}
  NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(ns.empty() ? p.ns_ : (p.ns_ == "/" ? "" : p.ns_) + "/" + ns) {}
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& k) const { return resolve(k); }
  template <class T> bool getParam(const std::string& key, T& v) const {
    simros::Xml x;
    std::string k = resolve(key);
    if (!simros::params().get(k, x)) { x.type = simros::Xml::Struct; simros::cast(x, v); return false; }
    return simros::cast(x, v);
  }
  template <class T> bool getParamCached(const std::string& key, T& v) const { return getParam(key, v); }
  bool hasParam(const std::string& key) const { simros::Xml x; return simros::params().get(resolve(key), x); }
  template <class T> bool param(const std::string& key, T& v, const T& d) const { if (getParam(key, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& key, const T& d) const { T v; param(key, v, d); return v; }
  Subscriber subscribe(SubscribeOptions& o) {
    Subscriber s;
    s.impl_ = std::make_shared<Subscriber::Impl>();
    s.impl_->sub = std::make_shared<simros::Sub>();
    simros::Sub& x = *s.impl_->sub;
    x.topic = o.topic; x.qsize = o.queue_size; x.cb = o.cb;
    x.queue = o.callback_queue ? o.callback_queue : getGlobalCallbackQueue();
    { sim::NoPreempt np; simros::st().subs.push_back(s.impl_->sub); }
    sim::sched_point("subscribed");
    return s;
  }
};
class Rate {
  int64_t start_, cycle_;
 public:
  explicit Rate(double f) : start_(sim::mono_ns()), cycle_((int64_t)(1e9 / f)) {}
  bool sleep() {
    simros::st().sleeping();
    int64_t end = start_ + cycle_, now = sim::mono_ns();
    start_ = end;
    if (end <= now) { if (now > end + cycle_) start_ = now; sim::sched_point("rate"); return false; }
    sim::sleep_ns(end - now + (sim::chance(1, 8, "late wake-up") ? (int64_t)sim::choose(20000000) : 0));
    return true;
  }
  void reset() { start_ = sim::mono_ns(); }
  Duration expectedCycleTime() const { return Duration(cycle_ * 1e-9); }
  Duration cycleTime() const { return Duration(cycle_ * 1e-9); }
};
typedef Rate WallRate;
}  // namespace ros
namespace ros { namespace simros { inline std::map<std::string, uint64_t>& logged() { static auto* m = new std::map<std::string, uint64_t>; return *m; } } }
#define ROS_STUB_NAMED(level, name, x) do { std::ostringstream ros_stub_stream; ros_stub_stream << x; ::ros::simros::logged()[level]++; } while (0)
#define ROS_DEBUG_STREAM_NAMED(name, x) ROS_STUB_NAMED("debug", name, x)
#define ROS_INFO_STREAM_NAMED(name, x) ROS_STUB_NAMED("info", name, x)
#define ROS_WARN_STREAM_NAMED(name, x) ROS_STUB_NAMED("warn", name, x)
#define ROS_ERROR_STREAM_NAMED(name, x) ROS_STUB_NAMED("error", name, x)
#define ROS_FATAL_STREAM_NAMED(name, x) ROS_STUB_NAMED("fatal", name, x)
#define ROS_STUB_LOG(...) do { } while (0)
#define ROS_DEBUG_STREAM(x) ROS_STUB_LOG(x)
#define ROS_FATAL_STREAM(x) ROS_STUB_LOG(x)
#define ROS_DEBUG ROS_STUB_LOG
#define ROS_FATAL ROS_STUB_LOG
#define ROS_INFO_STREAM(x) ROS_STUB_LOG(x)
#define ROS_WARN_STREAM(x) ROS_STUB_LOG(x)
#define ROS_ERROR_STREAM(x) ROS_STUB_LOG(x)
#define ROS_INFO ROS_STUB_LOG
#define ROS_WARN ROS_STUB_LOG
#define ROS_ERROR ROS_STUB_LOG

// C54: starting a C++ node from Python; C55: parameters and the spin loop.
#include <ros/console.h>
#include <arc_utilities/ros_helpers.hpp>
#include <../src/roscpp_initializer.cpp>
#include <cmath>
using namespace sim;
namespace sr = ros::simros;
typedef std::map<std::string, py::Value> Kw;

struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };

// ------------------------------------------------------------------ C54
SCENARIO(C54) {
  config().clock_ticks = false;
  config().stalls = choose(2);
  sr::st().ok = false;
  py::module_ m;
  pybind11_module_roscpp_initializer(m);
  static const char* NAMES[] = {"cpp_node", "a", "cpp_talker", "bad/name", "~private", ""};
  static const char* ARGS[] = {"prog", "", "_x:=1", "chatter:=/other", "--flag", "value with spaces", "__name:=other", "\xc3\xa4"};
  static const ros::console::Level LEVELS[] = {ros::console::Level::Debug, ros::console::Level::Info, ros::console::Level::Warn, ros::console::Level::Error, ros::console::Level::Fatal};
  bool up = false, down = false;
  uint64_t sent = 0, handled = 0, in_cb = 0;
  int64_t down_at = -1;
  std::unique_ptr<ros::NodeHandle> nh;
  ros::Subscriber sub[2];
  uint64_t ids[2] = {0, 0};
  bool slow = choose(2);
  auto callback = [&](int which) {
    return boost::function<void(const boost::shared_ptr<uint64_t const>&)>([&, which](const boost::shared_ptr<uint64_t const>& v) {
      { NoPreempt np;
        in_cb++;
        SIM_CHECK(in_cb == 1, "concurrent", "%llu callbacks run at the same time", (unsigned long long)in_cb);
        SIM_CHECK(*v > ids[which], "order", "message %llu was handled after %llu", (unsigned long long)*v, (unsigned long long)ids[which]);
        ids[which] = *v; }
      if (slow) sleep_ns((int64_t)choose(4) * 3000000);
      NoPreempt np;
      in_cb--; handled++;
    });
  };
  auto subscribe = [&](const char* topic, int k) {
    ros::SubscribeOptions o = ros::SubscribeOptions::create<uint64_t>(topic, 100, callback(k), ros::VoidConstPtr(), nullptr);
    sub[k] = nh->subscribe(o);
  };
  auto shut = [&](bool by_module) {
    if (by_module) m.call("shutdown", {}, {}); else { ros::shutdown(); fault("ros_shutdown"); }
    NoPreempt np;
    SIM_CHECK(!sr::st().ok, "not-shut-down", "shutdown() returned but ROS is still up");
    if (down_at < 0) down_at = mono_ns();
    down = true;
  };
  uint32_t ops = 1 + choose(6, "operations");
  bool signal_planned = choose(4) == 3;
  int sig = -1;
  for (uint32_t n = 0; n < ops; n++) {
    if (!up || choose(6) == 5) {
      // what the Python program asks for
      std::string name = NAMES[choose(4) ? choose(3) : choose(6)];
      std::vector<std::string> argv;
      long level = 2;
      bool anon = false, norosout = false, nosig = false;
      Kw kw;
      std::vector<py::Value> pos;
      uint32_t positional = choose(7);
      bool give_argv = choose(2), give_level = choose(2), give[3];
      for (bool& g : give) g = choose(2);
      if (give_argv || positional > 1) for (uint32_t i = choose(5); i > 0; i--) argv.push_back(choose(8) == 7 ? std::string(1 + choose(300), 'x') : ARGS[choose(8)]);
      if (give_level || positional > 2) { static const long odd[] = {5, -1, 10, 256, 20, 1 << 16}; level = choose(8) == 7 ? odd[choose(6)] : (long)choose(5); }
      bool* flags[] = {&anon, &norosout, &nosig};
      for (int i = 0; i < 3; i++) if (give[i] || positional > 3u + i) *flags[i] = choose(2);
      py::Value vals[] = {py::Value(name), py::Value(argv), py::Value((int)level), py::Value(anon), py::Value(norosout), py::Value(nosig)};
      static const char* KW[] = {"name", "argv", "log_level", "anonymous", "disable_rosout", "disable_signals"};
      bool used[] = {true, give_argv, give_level, give[0], give[1], give[2]};
      for (uint32_t i = 0; i < 6; i++) { if (i < positional) pos.push_back(vals[i]); else if (used[i]) kw[KW[i]] = vals[i]; }
      // what goes wrong
      uint32_t wrong = choose(6) == 5 ? 1 + choose(up ? 2 : 4) : 0;
      sr::boot().hook = [&](int at) {
        sched_point("boot");
        if (wrong == (uint32_t)at + 1) { static const char* F[] = {"init_fails", "init_fails_late", "spinner_fails", "spinner_start_fails"}; fault(F[at]); throw Refused("refused"); }
      };
      size_t inits0 = sr::boot().inits.size();
      auto levels0 = ros::console::simlevels();
      bool was = sr::boot().initialised;
      std::string what;
      event("init_node %s, %zu arguments, level %ld, options %d%d%d, failure %u", name.c_str(), argv.size(), level, anon, norosout, nosig, wrong);
      bool okay = false, invalid = false, badname = false, refused = false;
      try { m.call("init_node", pos, kw); okay = true; }
      catch (const std::invalid_argument& e) { invalid = true; }
      catch (const ros::InvalidNodeNameException& e) { badname = true; }
      catch (const Refused& e) { refused = true; }
      catch (const std::exception& e) { what = e.what(); }
      NoPreempt np;
      sr::boot().hook = nullptr;
      SIM_CHECK(okay || invalid || badname || refused, "other-error", "init_node raised %s", what.c_str());
      if (level < 0 || level > 4) {
        SIM_CHECK(invalid, "bad-level", "log level %ld was accepted", level);
        SIM_CHECK(sr::boot().inits.size() == inits0 && ros::console::simlevels() == levels0, "bad-level", "log level %ld was refused after something had been changed", level);
        probe("invalid level");
        if (!up) SIM_CHECK(sr::boot().running == 0, "left-running", "a refused node is running");
        continue;
      }
      SIM_CHECK(!invalid, "good-level", "log level %ld was refused", level);
      SIM_CHECK(refused == (wrong && !badname), "error-lost", "a failure of ROS was %s", refused ? "invented" : "lost");
      SIM_CHECK(badname == (!was && (name.empty() || name.find_first_of("/~") != std::string::npos) && wrong != 1), "name-error", "the name %s was %s", name.c_str(), badname ? "refused" : "accepted");
      SIM_CHECK(sr::boot().inits.size() == inits0 + 1, "init-count", "ROS was initialised %zu times", sr::boot().inits.size() - inits0);
      {
        const sr::Init& i = sr::boot().inits.back();
        SIM_CHECK(i.name == name, "wrong-name", "the node is named %s instead of %s", i.name.c_str(), name.c_str());
        SIM_CHECK(i.argv == argv, "wrong-arguments", "%zu command line arguments were handed over as %zu, or with other text", argv.size(), i.argv.size());
        uint32_t want = (anon ? ros::init_options::AnonymousName : 0) | (norosout ? ros::init_options::NoRosout : 0) | (nosig ? ros::init_options::NoSigintHandler : 0);
        SIM_CHECK(i.options == want, "wrong-options", "the node was initialised with options %u, asked for were %u (anonymous %d, disable_rosout %d, disable_signals %d)", i.options, want, anon, norosout, nosig);
      }
      if (okay) {
        auto levels = ros::console::simlevels();
        SIM_CHECK(levels.count(name) && levels[name] == LEVELS[level], "wrong-level", "log level %ld became level %d", level, levels.count(name) ? (int)levels[name] : -1);
        levels0[name] = LEVELS[level];
        SIM_CHECK(levels == levels0, "other-level", "the level of another logger was changed");
        if (sr::st().ok) SIM_CHECK(sr::boot().running >= 1, "no-spinner", "nothing handles messages after init_node has returned");
        nontrivial();
        if (up) probe("initialised again");
        if (!up) {
          up = true;
          np.~NoPreempt();
          nh.reset(new ros::NodeHandle);
          subscribe("chatter", 0);
          if (choose(2)) subscribe("other", 1);
          if (signal_planned) sig = spawn([&] { sleep_ns((int64_t)choose(8) * 4000000); shut(false); }, "signal");
          new (&np) NoPreempt;
        }
      } else {
        probe("init failed");
        if (!up) SIM_CHECK(sr::boot().running == 0, "left-running", "init_node raised an error but left a thread running");
      }
      continue;
    }
    switch (choose(5, "operation")) {
      case 4: if (choose(3) == 2) { shut(true); break; } // fall through
      default: {
        uint32_t k = 1 + choose(4);
        for (uint32_t i = 0; i < k; i++) {
          ++sent;
          sr::arrive(choose(3) ? "chatter" : "other", ros::VoidConstPtr(boost::shared_ptr<uint64_t const>(new uint64_t(sent))), sent);
          if (choose(2)) sleep_ns((int64_t)choose(4) * 2000000);
        }
      }
    }
  }
  if (sig >= 0) join(sig);
  if (up && sr::st().ok) {
    // progress: everything that arrived is handled, as long as nobody shuts ROS down
    for (int i = 0; i < 200; i++) {
      { NoPreempt np; bool left = false; for (auto& s : sr::st().subs) left = left || s->pending || s->calling; if (!left) break; }
      sleep_ns(50000000);
    }
    NoPreempt np;
    for (auto& s : sr::st().subs) SIM_CHECK(!s->pending && !s->calling, "unhandled", "%llu messages of %s were not handled within 10 s", (unsigned long long)s->pending, s->topic.c_str());
    SIM_CHECK(sr::boot().running == 1, "spinners", "%d threads handle messages", sr::boot().running);
    if (handled) probe("messages handled");
  }
  if (up) {
    if (sr::st().ok) shut(true);
    for (int i = 0; i < 40 && sr::boot().running; i++) sleep_ns(50000000);
    SIM_CHECK(sr::boot().running == 0, "left-running", "%d threads still handle messages 2 s after ROS was shut down", sr::boot().running);
  }
  sub[0].shutdown(); sub[1].shutdown();
}

// ------------------------------------------------------------------ C55
using sr::Xml;
template <class T> static std::string show(const T& v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
template <class T> static std::string show(const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + show((T)v[i]); return s + "]"; }

struct Server {
  struct Version { bool there; Xml x; };
  std::map<std::string, std::vector<Version>> past;   // every value a name has had
  void note(const std::string& k) { auto f = sr::params().now.find(k); past[k].push_back(f == sr::params().now.end() ? Version{false, Xml()} : Version{true, f->second}); }
  size_t at(const std::string& k) { NoPreempt np; if (!past.count(k)) note(k); return past[k].size() - 1; }
};
static int serial;
static Xml some_value(int depth = 0) {
  Xml x;
  switch (choose(depth ? 4 : 7)) {
    case 0: x.type = Xml::Int; x.i = ++serial * 3; break;
    case 1: x.type = Xml::Double; x.d = ++serial + 0.25 * choose(4); break;
    case 2: x.type = Xml::String; x.s = "s" + std::to_string(++serial); break;
    case 3: x.type = Xml::Boolean; x.b = choose(2); break;
    case 4: x.type = Xml::Struct; break;
    default: {
      x.type = Xml::Array;
      uint32_t n = choose(4), one = choose(3);
      Xml first = some_value(1);
      for (uint32_t i = 0; i < n; i++) { Xml e = some_value(1); if (one) { e = first; e.i += i; e.d += i; } x.a.push_back(e); }
    }
  }
  return x;
}
template <class T> static T some_default();
template <> int some_default<int>() { return 1000 + choose(9); }
template <> double some_default<double>() { return 0.5 + choose(9); }
template <> float some_default<float>() { return 0.5f + choose(9); }
template <> bool some_default<bool>() { return choose(2); }
template <> std::string some_default<std::string>() { return choose(4) ? "default " + std::to_string(choose(9)) : std::string(); }
template <class T> static std::vector<T> some_defaults() { std::vector<T> v; for (uint32_t i = choose(3); i > 0; i--) v.push_back(some_default<T>()); return v; }

struct Outcome { int kind; };   // 0 value, 1 default, 2 nothing, 3 error
template <class V> static void judge(Server& srv, const std::string& key, size_t from, size_t to, bool failed, int got, const V& value, const V* def, const char* what) {
  bool may_miss = failed;
  bool okay = false;
  std::string allowed;
  for (size_t i = from; i <= to; i++) {
    const Server::Version& v = srv.past[key][i];
    V w{};
    if (v.there && sr::cast(v.x, w)) { allowed += " " + show(w); if (got == 0 && w == value) okay = true; }
    else may_miss = true;
  }
  if (may_miss) {
    if (def) { allowed += " (default) " + show(*def); if (got == 0 && value == *def) okay = true; }
    else { allowed += " nothing"; if (got != 0) okay = true; }
  }
  SIM_CHECK(okay, "wrong-value", "%s of %s gave %s, during the call the server held%s", what, key.c_str(), got == 0 ? show(value).c_str() : got == 2 ? "nothing" : "an error", allowed.c_str());
}

template <class T> static void ask(Server& srv, const ros::NodeHandle& nh, const std::string& name, const std::string& key, bool& failed, bool bad_name) {
  uint32_t how = choose(6);
  T def = some_default<T>(), value{};
  const T cdef = def;
  int got = 0;
  bool threw_name = false, has_def = false;
  std::string err;
  size_t from = srv.at(key);
  failed = false;
  event("ask %u for %s", how, key.c_str());
  try {
    switch (how) {
      case 0: has_def = true; switch (choose(3)) {
        case 0: value = ROSHelpers::GetParam<T>(nh, name, T(def)); break;
        case 1: value = ROSHelpers::GetParam(nh, name, cdef); break;
        default: value = ROSHelpers::GetParam(nh, name, def);
      } break;
      case 1: has_def = true; switch (choose(3)) {
        case 0: value = ROSHelpers::GetParamDebugLog<T>(nh, name, T(def)); break;
        case 1: value = ROSHelpers::GetParamDebugLog(nh, name, cdef); break;
        default: value = ROSHelpers::GetParamDebugLog(nh, name, def);
      } break;
      case 2: case 3: { Maybe::Maybe<T> x = ROSHelpers::GetParamOptional<T>(nh, name, "the harness"); if (x.Valid()) value = x.Get(); else got = 2; break; }
      case 4: value = ROSHelpers::GetParamRequired<T>(nh, name, "the harness"); break;
      default: value = ROSHelpers::GetParamRequiredDebugLog<T>(nh, name, "the harness");
    }
  } catch (const std::invalid_argument& e) { got = 3; err = e.what(); }
  catch (const ros::InvalidNameException&) { threw_name = true; }
  NoPreempt np;
  size_t to = srv.at(key);
  SIM_CHECK(threw_name == bad_name, "name-error", "the error of an invalid name was %s", threw_name ? "invented" : "lost");
  if (threw_name) return;
  SIM_CHECK(def == cdef, "default-changed", "the default value was changed");
  SIM_CHECK(got != 3 || how >= 4, "error", "asking for %s with a default raised %s", key.c_str(), err.c_str());
  SIM_CHECK(got != 3 || (err.find(name) != std::string::npos && err.find("the harness") != std::string::npos), "error-text", "the error does not name the parameter and the function: %s", err.c_str());
  judge<T>(srv, key, from, to, failed, got, value, has_def ? &def : nullptr, "asking for the parameter");
  if (from != to) { probe("changed meanwhile"); nontrivial(); }
}
template <class T> static void ask_vector(Server& srv, const ros::NodeHandle& nh, const std::string& name, const std::string& key, bool& failed, bool bad_name) {
  uint32_t how = choose(5);
  std::vector<T> def = some_defaults<T>(), value;
  const std::vector<T> before = def;
  int got = 0;
  bool threw_name = false, has_def = false;
  std::string err;
  size_t from = srv.at(key);
  failed = false;
  event("ask %u for vector %s", how, key.c_str());
  try {
    switch (how) {
      case 0: case 1: has_def = true; value = ROSHelpers::GetVector<T>(nh, name, def); break;
      case 2: { auto x = ROSHelpers::GetVectorOptional<T>(nh, name, "the harness"); if (x.Valid()) value = x.Get(); else got = 2; break; }
      case 3: value = ROSHelpers::GetVectorRequired<T>(nh, name, "the harness"); break;
      default: value = ROSHelpers::GetVectorRequiredDebugLog<T>(nh, name, "the harness");
    }
  } catch (const std::invalid_argument& e) { got = 3; err = e.what(); }
  catch (const ros::InvalidNameException&) { threw_name = true; }
  NoPreempt np;
  size_t to = srv.at(key);
  SIM_CHECK(threw_name == bad_name, "name-error", "the error of an invalid name was %s", threw_name ? "invented" : "lost");
  if (threw_name) return;
  SIM_CHECK(def == before, "default-changed", "the default value was changed");
  SIM_CHECK(got != 3 || how >= 3, "error", "asking for %s raised %s", key.c_str(), err.c_str());
  SIM_CHECK(got != 3 || (err.find(name) != std::string::npos && err.find("the harness") != std::string::npos), "error-text", "the error does not name the parameter and the function: %s", err.c_str());
  judge<std::vector<T>>(srv, key, from, to, failed, got, value, has_def ? &def : nullptr, "asking for the vector");
  if (from != to) { probe("changed meanwhile"); nontrivial(); }
}

static void c55_params() {
  Server srv;
  serial = 0;
  static const char* SPACES[] = {"", "planner", "a/b"};
  ros::NodeHandle root(SPACES[choose(3)]);
  ros::NodeHandle nh = choose(3) ? root : ros::NodeHandle(root, "sub");
  static const char* PN[] = {"gain", "limits", "deep/name", "/absolute"};
  auto key_of = [&](uint32_t k) { return nh.resolveName(PN[k]); };
  auto change = [&] {
    NoPreempt np;
    std::string k = key_of(choose(4));
    srv.at(k);
    if (choose(4) == 3) sr::params().now.erase(k); else sr::params().now[k] = some_value();
    srv.note(k);
    event("another node changes %s", k.c_str());
  };
  for (uint32_t i = choose(6); i > 0; i--) change();
  uint32_t loss = choose(4) == 3 ? 3 : 0;
  bool failed = false, busy = choose(2), mine = false;
  sr::params().fails = [&] { if (loss && mine && chance(1, loss)) { failed = true; fault("master_fails"); return true; } return false; };
  sr::params().hook = [&](const std::string&, const char*) { if (busy && mine && choose(3) == 2) { change(); fault("changed_during_call"); } };
  uint32_t n = 1 + choose(8, "questions");
  int other = -1;
  bool stop = false;
  if (choose(2)) other = spawn([&] { for (uint32_t i = 0; i < 6 && !stop; i++) { sched_point("other node"); change(); } }, "other node");
  for (uint32_t i = 0; i < n; i++) {
    bool bad = choose(12) == 11;
    uint32_t k = choose(4);
    std::string name = bad ? "~private" : PN[k], key = bad ? "" : key_of(k);
    mine = true;
    switch (choose(9)) {
      case 0: ask<int>(srv, nh, name, key, failed, bad); break;
      case 1: ask<double>(srv, nh, name, key, failed, bad); break;
      case 2: ask<std::string>(srv, nh, name, key, failed, bad); break;
      case 3: ask<bool>(srv, nh, name, key, failed, bad); break;
      case 4: ask<float>(srv, nh, name, key, failed, bad); break;
      case 5: ask_vector<int>(srv, nh, name, key, failed, bad); break;
      case 6: ask_vector<double>(srv, nh, name, key, failed, bad); break;
      case 7: ask_vector<std::string>(srv, nh, name, key, failed, bad); break;
      default: ask_vector<bool>(srv, nh, name, key, failed, bad);
    }
    mine = false;
  }
  stop = true;
  if (other >= 0) join(other);
  nontrivial();
}

static void c55_spin() {
  struct Boom {};
  config().stalls = choose(2);
  static const double PERIODS[] = {0.01, 0.1, 1.0, 0.001};
  double period = PERIODS[choose(4, "loop period")];
  ros::NodeHandle nh;
  uint64_t last = 0, handled = 0;
  std::vector<int64_t> arrived(20, -1);
  bool raises = choose(6) == 5, spinning = false;
  uint64_t raise_at = raises ? 1 + choose(4) : 0;
  int spinner_tid = -1;
  ros::SubscribeOptions o = ros::SubscribeOptions::create<uint64_t>("chatter", 100, [&](const boost::shared_ptr<uint64_t const>& v) {
    { NoPreempt np;
      SIM_CHECK(current_tid() == spinner_tid, "thread", "a callback ran in another thread");
      SIM_CHECK(*v == last + 1, "order", "message %llu was handled after %llu", (unsigned long long)*v, (unsigned long long)last);
      last = *v; handled++; }
    if (*v == raise_at) { fault("callback_raises"); throw Boom(); }
    if (choose(3) == 2) sleep_ns((int64_t)choose(4) * 5000000);
  }, ros::VoidConstPtr(), nullptr);
  ros::Subscriber sub = nh.subscribe(o);
  uint32_t n = choose(8, "messages");
  bool late = choose(2);
  int64_t down_at = -1, returned = -1, threw = -1;
  if (choose(8) == 7) { ros::shutdown(); down_at = mono_ns(); }
  uint64_t sent = 0;
  for (uint32_t i = choose(3); i > 0 && sent < n; i--) { ++sent; arrived[sent] = mono_ns(); sr::arrive("chatter", ros::VoidConstPtr(boost::shared_ptr<uint64_t const>(new uint64_t(sent))), sent); }
  int t = spawn([&] {
    { NoPreempt np; spinner_tid = current_tid(); spinning = true; }
    try { ROSHelpers::Spin(period); } catch (const Boom&) { NoPreempt np; threw = mono_ns(); }
    NoPreempt np;
    returned = mono_ns();
    event("Spin returned");
    SIM_CHECK(threw >= 0 || !sr::st().ok, "early", "Spin returned although ROS is up");
  }, "spin");
  if (down_at < 0) {
    for (; sent < n;) {
      if (choose(2)) sleep_ns((int64_t)choose(6) * 20000000);
      NoPreempt np;
      ++sent; arrived[sent] = mono_ns();
      sr::arrive("chatter", ros::VoidConstPtr(boost::shared_ptr<uint64_t const>(new uint64_t(sent))), sent);
    }
    // everything that arrived is handled within a bounded time
    int64_t t0 = mono_ns();
    if (late) {
      for (int i = 0; i < 100 && handled < sent && threw < 0; i++) sleep_ns(20000000 + (int64_t)(period * 2e8));
      SIM_CHECK(handled == sent || threw >= 0, "unhandled", "%llu of %llu messages were not handled within %.1f s", (unsigned long long)(sent - handled), (unsigned long long)sent, (mono_ns() - t0) * 1e-9);
      nontrivial();
    }
    if (threw < 0) { ros::shutdown(); NoPreempt np; down_at = mono_ns(); fault("ros_shutdown"); }
  }
  for (int i = 0; i < 60 && returned < 0; i++) sleep_ns((int64_t)(period * 5e8) + 20000000);
  SIM_CHECK(returned >= 0, "no-end", "Spin did not return although ROS was shut down");
  if (!config().stalls && down_at >= 0) SIM_CHECK(returned <= down_at + (int64_t)(period * 1e9) + 200000000, "late", "Spin returned %.3f s after ROS was shut down, its period is %g s", (returned - down_at) * 1e-9, period);
  join(t);
  SIM_CHECK(!raise_at || raise_at > handled || threw >= 0, "error-lost", "the error of a callback was lost");
  sub.shutdown();
}
SCENARIO(C55) {
  config().clock_ticks = false;
  if (choose(4) == 3) c55_spin(); else c55_params();
}

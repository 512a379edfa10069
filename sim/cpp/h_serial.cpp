// C43: what is serialised survives storage and transport, or the damage does no harm.
#include "sim.hpp"
#include <endian.h>
#include <algorithm>
#include <array>
#include <boost/shared_array.hpp>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <geometry_msgs/Point.h>
#include <arc_utilities/eigen_typedefs.hpp>
// block copies are library calls, which the memory checks do not see by themselves
static inline void* simcheck_copy(void* d, const void* s, size_t n) { sim::check_range(s, n); sim::check_range(d, n); return memcpy(d, s, n); }
namespace std { using ::simcheck_copy; }
#define memcpy simcheck_copy
#include <arc_utilities/serialization.hpp>
#include <arc_utilities/serialization_eigen.hpp>
#include <arc_utilities/serialization_ros.hpp>
#undef memcpy
using namespace sim;
using namespace arc_utilities;
typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ independent encoder (the documented layout)
static void raw(Bytes& b, const void* p, size_t n) { for (size_t i = 0; i < n; i++) b.push_back(((const uint8_t*)p)[i]); }
static void rev(Bytes& b, const void* p, size_t n) { for (size_t i = n; i-- > 0;) b.push_back(((const uint8_t*)p)[i]); }
template <typename T> static void val(Bytes& b, const T& v, bool net) { if (net) rev(b, &v, sizeof v); else raw(b, &v, sizeof v); }

struct Item {
  std::string kind;
  Bytes ref;                                                                    // what must be in the stream
  uint32_t slack = 0;                                                           // trailing bytes whose content means nothing
  std::function<uint64_t(Bytes&)> write;
  std::function<uint64_t(const Bytes&, uint64_t, bool*)> read;                  // bytes consumed; whether the value is equal
};

// values with every bit pattern: not a number, infinities, negative zero, denormals, extremes
template <typename T> static T gen_pod() {
  Bytes x(sizeof(T));
  switch (choose(6, "value")) {
    case 0: return T();
    case 1: { T v = T(); x[0] = (uint8_t)choose(256); std::memcpy(&v, x.data(), sizeof v); return v; }
    case 2: { T v; memset(&v, 0xff, sizeof v); return v; }
    default: { for (auto& c : x) c = (uint8_t)choose(256); T v; std::memcpy(&v, x.data(), sizeof v); return v; }
  }
}
static uint32_t gen_len() { return choose(4) ? choose(4, "length") : choose(40, "length"); }

struct Rec { int32_t a; double b; uint8_t c[5]; uint8_t pad[7]; };

// every type: gen, ref, ser, des
template <typename T, bool NET> struct Pod {
  typedef T type;
  static std::string name() { return std::string(NET ? "network " : "") + "POD of " + std::to_string(sizeof(T)); }
  static T gen() { return gen_pod<T>(); }
  static void ref(const T& v, Bytes& b) { val(b, v, NET); }
  static uint64_t ser(const T& v, Bytes& b) { return SerializeFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> des(const Bytes& b, uint64_t at) { return DeserializeFixedSizePOD<T>(b, at); }
};
template <typename T> struct Net : Pod<T, true> {
  static uint64_t ser(const T& v, Bytes& b) { return SerializeNetworkFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> des(const Bytes& b, uint64_t at) { return DeserializeNetworkFixedSizePOD<T>(b, at); }
};
template <typename C, bool NET> struct Str {
  typedef std::basic_string<C> type;
  static std::string name() { return std::string(NET ? "network " : "") + "string of " + std::to_string(sizeof(C)) + "-byte characters"; }
  static type gen() { type s; uint32_t n = gen_len(); for (uint32_t i = 0; i < n; i++) s.push_back(gen_pod<C>()); return s; }
  static void ref(const type& v, Bytes& b) { val(b, (uint64_t)v.size(), NET); for (C c : v) val(b, c, NET); }
  template <bool N> static typename std::enable_if<N, uint64_t>::type ser_(const type& v, Bytes& b) { return SerializeNetworkString<C>(v, b); }
  template <bool N> static typename std::enable_if<!N, uint64_t>::type ser_(const type& v, Bytes& b) { return SerializeString<C>(v, b); }
  template <bool N> static typename std::enable_if<N, std::pair<type, uint64_t>>::type des_(const Bytes& b, uint64_t at) { return DeserializeNetworkString<C>(b, at); }
  template <bool N> static typename std::enable_if<!N, std::pair<type, uint64_t>>::type des_(const Bytes& b, uint64_t at) { return DeserializeString<C>(b, at); }
  static uint64_t ser(const type& v, Bytes& b) { return ser_<NET>(v, b); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return des_<NET>(b, at); }
};
template <typename E, bool NET, bool LIKE = false> struct Vec {
  typedef typename E::type T;
  typedef typename std::conditional<LIKE, std::vector<T, Eigen::aligned_allocator<T>>, std::vector<T>>::type type;
  static std::string name() { return std::string(NET ? "network " : "") + (LIKE ? "vector-like of " : "vector of ") + E::name(); }
  static type gen() { type v; uint32_t n = gen_len(); for (uint32_t i = 0; i < n; i++) v.push_back(E::gen()); return v; }
  static void ref(const type& v, Bytes& b) { val(b, (uint64_t)v.size(), NET); for (const T& x : v) E::ref(x, b); }
  typedef std::function<uint64_t(const T&, Bytes&)> S;
  typedef std::function<std::pair<T, uint64_t>(const Bytes&, const uint64_t)> D;
  template <int K> static typename std::enable_if<K == 0, uint64_t>::type ser_(const type& v, Bytes& b, const S& s) { return SerializeVector<T>(v, b, s); }
  template <int K> static typename std::enable_if<K == 1, uint64_t>::type ser_(const type& v, Bytes& b, const S& s) { return SerializeNetworkVector<T>(v, b, s); }
  template <int K> static typename std::enable_if<K == 2, uint64_t>::type ser_(const type& v, Bytes& b, const S& s) { return SerializeVectorLike<T, type>(v, b, s); }
  template <int K> static typename std::enable_if<K == 0, std::pair<type, uint64_t>>::type des_(const Bytes& b, uint64_t at, const D& d) { return DeserializeVector<T>(b, at, d); }
  template <int K> static typename std::enable_if<K == 1, std::pair<type, uint64_t>>::type des_(const Bytes& b, uint64_t at, const D& d) { return DeserializeNetworkVector<T>(b, at, d); }
  template <int K> static typename std::enable_if<K == 2, std::pair<type, uint64_t>>::type des_(const Bytes& b, uint64_t at, const D& d) { return DeserializeVectorLike<T, type>(b, at, d); }
  static uint64_t ser(const type& v, Bytes& b) { return ser_<LIKE ? 2 : NET>(v, b, S(E::ser)); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return des_<LIKE ? 2 : NET>(b, at, D(E::des)); }
};
template <typename A, typename B, bool NET> struct Two {
  typedef typename A::type F; typedef typename B::type G;
  typedef std::pair<F, G> type;
  static std::string name() { return std::string(NET ? "network " : "") + "pair (" + A::name() + ", " + B::name() + ")"; }
  static type gen() { F f = A::gen(); return type(f, B::gen()); }
  static void ref(const type& v, Bytes& b) { A::ref(v.first, b); B::ref(v.second, b); }
  typedef std::function<uint64_t(const F&, Bytes&)> SF; typedef std::function<uint64_t(const G&, Bytes&)> SG;
  typedef std::function<std::pair<F, uint64_t>(const Bytes&, const uint64_t)> DF; typedef std::function<std::pair<G, uint64_t>(const Bytes&, const uint64_t)> DG;
  static uint64_t ser(const type& v, Bytes& b) { return NET ? SerializeNetworkPair<F, G>(v, b, SF(A::ser), SG(B::ser)) : SerializePair<F, G>(v, b, SF(A::ser), SG(B::ser)); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return NET ? DeserializeNetworkPair<F, G>(b, at, DF(A::des), DG(B::des)) : DeserializePair<F, G>(b, at, DF(A::des), DG(B::des)); }
};
template <typename A, typename B, bool NET> struct Map {
  typedef typename A::type F; typedef typename B::type G;
  typedef std::map<F, G> type;
  static std::string name() { return std::string(NET ? "network " : "") + "map (" + A::name() + ", " + B::name() + ")"; }
  static type gen() { type m; uint32_t n = gen_len(); for (uint32_t i = 0; i < n; i++) { F k = A::gen(); m[k] = B::gen(); } return m; }
  static void ref(const type& v, Bytes& b) { val(b, (uint64_t)v.size(), NET); for (auto& e : v) { A::ref(e.first, b); B::ref(e.second, b); } }
  typedef std::function<uint64_t(const F&, Bytes&)> SF; typedef std::function<uint64_t(const G&, Bytes&)> SG;
  typedef std::function<std::pair<F, uint64_t>(const Bytes&, const uint64_t)> DF; typedef std::function<std::pair<G, uint64_t>(const Bytes&, const uint64_t)> DG;
  static uint64_t ser(const type& v, Bytes& b) { return NET ? SerializeNetworkMap<F, G>(v, b, SF(A::ser), SG(B::ser)) : SerializeMap<F, G>(v, b, SF(A::ser), SG(B::ser)); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return NET ? DeserializeNetworkMap<F, G>(b, at, DF(A::des), DG(B::des)) : DeserializeMap<F, G>(b, at, DF(A::des), DG(B::des)); }
};
template <typename M> struct Mat {
  typedef M type;
  enum { R = M::RowsAtCompileTime, C = M::ColsAtCompileTime };
  static std::string name() { return "Eigen " + std::to_string((int)R) + "x" + std::to_string((int)C) + " of " + std::to_string(sizeof(typename M::Scalar)) + "-byte numbers"; }
  static M gen() {
    M m;
    m.resize((int)R == Eigen::Dynamic ? choose(5, "rows") : (int)R, (int)C == Eigen::Dynamic ? choose(5, "columns") : (int)C);
    for (int i = 0; i < m.size(); i++) m.data()[i] = gen_pod<typename M::Scalar>();
    return m;
  }
  static void ref(const M& m, Bytes& b) {
    if ((int)R == Eigen::Dynamic) val(b, (uint64_t)m.rows(), false);
    if ((int)C == Eigen::Dynamic) val(b, (uint64_t)m.cols(), false);
    for (Eigen::Index k = 0; k < m.size(); k++) { typename M::Scalar x; std::memcpy(&x, m.data() + k, sizeof x); val(b, x, false); }
  }
  static uint64_t ser(const M& m, Bytes& b) { return SerializeEigen(m, b); }
  static std::pair<M, uint64_t> des(const Bytes& b, uint64_t at) { return DeserializeEigen<M>(b, at); }
};
struct Iso {
  typedef Eigen::Isometry3d type;
  static std::string name() { return "isometry"; }
  static type gen() { type t; for (int i = 0; i < 16; i++) t.matrix().data()[i] = gen_pod<double>(); return t; }
  static void ref(const type& t, Bytes& b) { raw(b, t.matrix().data(), 128); }
  static uint64_t ser(const type& t, Bytes& b) { return SerializeEigen<Eigen::Isometry3d>(t, b); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return DeserializeEigen<type>(b, at); }
};
// ROS messages
static std::string gen_name() { return Str<char, false>::gen(); }
static std_msgs::Header gen_header() { std_msgs::Header h; h.seq = gen_pod<uint32_t>(); h.stamp.sec = gen_pod<uint32_t>(); h.stamp.nsec = gen_pod<uint32_t>(); h.frame_id = gen_name(); return h; }
static void ref_str(const std::string& s, Bytes& b) { Str<char, false>::ref(s, b); }
static void ref_header(const std_msgs::Header& h, Bytes& b) { val(b, h.seq, false); val(b, h.stamp.sec, false); val(b, h.stamp.nsec, false); ref_str(h.frame_id, b); }
#define ROSMSG(NAME, TYPE, GEN, REF)                                                                      \
  struct Ros##NAME {                                                                                      \
    typedef TYPE type;                                                                                    \
    static std::string name() { return "ROS " #NAME; }                                                    \
    static type gen() { type v; GEN; return v; }                                                          \
    static void ref(const type& v, Bytes& b) { REF; }                                                     \
    static uint64_t ser(const type& v, Bytes& b) { return Serialize##NAME(v, b); }                        \
    static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return Deserialize##NAME(b, at); } \
  };
static void gen_doubles(double* d, int n) { for (int i = 0; i < n; i++) d[i] = gen_pod<double>(); }
ROSMSG(Header, std_msgs::Header, v = gen_header(), ref_header(v, b))
ROSMSG(Point, geometry_msgs::Point, gen_doubles(&v.x, 3), raw(b, &v, 24))
ROSMSG(Vector3, geometry_msgs::Vector3, gen_doubles(&v.x, 3), raw(b, &v, 24))
ROSMSG(Quaternion, geometry_msgs::Quaternion, gen_doubles(&v.x, 4), raw(b, &v, 32))
ROSMSG(Pose, geometry_msgs::Pose, gen_doubles(&v.position.x, 7), raw(b, &v, 56))
ROSMSG(Transform, geometry_msgs::Transform, gen_doubles(&v.translation.x, 7), raw(b, &v, 56))
ROSMSG(PoseStamped, geometry_msgs::PoseStamped, v.header = gen_header(); gen_doubles(&v.pose.position.x, 7), ref_header(v.header, b); raw(b, &v.pose, 56))
ROSMSG(TransformStamped, geometry_msgs::TransformStamped, v.header = gen_header(); gen_doubles(&v.transform.translation.x, 7); v.child_frame_id = gen_name(),
       ref_header(v.header, b); raw(b, &v.transform, 56); ref_str(v.child_frame_id, b))
template <typename X> struct Wrapped : X {  // any message, as ROS itself lays it out
  typedef typename X::type type;
  static std::string name() { return "wrapped " + X::name(); }
  static void ref(const geometry_msgs::Point& v, Bytes& b) { raw(b, &v, 24); }
  static void ref(const geometry_msgs::PoseStamped& v, Bytes& b) {
    val(b, v.header.seq, false); val(b, v.header.stamp.sec, false); val(b, v.header.stamp.nsec, false);
    val(b, (uint32_t)v.header.frame_id.size(), false);
    raw(b, v.header.frame_id.data(), v.header.frame_id.size());
    raw(b, &v.pose, 56);
  }
  static uint64_t ser(const type& v, Bytes& b) { return RosMessageSerializationWrapper(v, b); }
  static std::pair<type, uint64_t> des(const Bytes& b, uint64_t at) { return RosMessageDeserializationWrapper<type>(b, at); }
};

template <typename X> static Item item_of(uint32_t slack = 0) {
  typedef typename X::type T;
  Item it;
  std::shared_ptr<T> v(new T(X::gen()));
  it.kind = X::name();
  X::ref(*v, it.ref);
  it.slack = slack;
  it.write = [v](Bytes& b) { return X::ser(*v, b); };
  std::shared_ptr<Bytes> want(new Bytes(it.ref));
  it.read = [want](const Bytes& b, uint64_t at, bool* eq) {
    auto r = X::des(b, at);
    alloc_arm(false);
    Bytes got;
    X::ref(r.first, got);
    *eq = got == *want;
    return r.second;
  };
  return it;
}

static Item gen_item() {
  switch (choose(38, "type")) {
    case 0: return item_of<Pod<uint8_t, false>>();
    case 1: return item_of<Pod<int16_t, false>>();
    case 2: return item_of<Pod<uint32_t, false>>();
    case 3: return item_of<Pod<int64_t, false>>();
    case 4: return item_of<Pod<float, false>>();
    case 5: return item_of<Pod<double, false>>();
    case 6: return item_of<Pod<Rec, false>>();
    case 7: return item_of<Net<uint8_t>>();
    case 8: return item_of<Net<uint16_t>>();
    case 9: return item_of<Net<int32_t>>();
    case 10: return item_of<Net<uint64_t>>();
    case 11: return item_of<Net<float>>();
    case 12: return item_of<Net<double>>();
    case 13: return item_of<Str<char, false>>();
    case 14: return item_of<Str<char32_t, false>>();
    case 15: return item_of<Str<char, true>>();
    case 16: return item_of<Str<uint16_t, true>>();
    case 17: return item_of<Vec<Pod<uint32_t, false>, false>>();
    case 18: return item_of<Vec<Str<char, false>, false>>();
    case 19: return item_of<Vec<Net<double>, true>>();
    case 20: return item_of<Vec<Mat<Eigen::Vector3d>, false, true>>();
    case 21: return item_of<Map<Str<char, false>, Pod<int64_t, false>, false>>();
    case 22: return item_of<Map<Pod<uint8_t, false>, Vec<Pod<uint16_t, false>, false>, false>>();
    case 23: return item_of<Map<Net<int16_t>, Str<char, true>, true>>();
    case 24: return item_of<Two<Pod<uint8_t, false>, Str<char, false>, false>>();
    case 25: return item_of<Two<Vec<Net<uint16_t>, true>, Net<float>, true>>();
    case 26: return item_of<Vec<Vec<Pod<uint8_t, false>, false>, false>>();
    case 27: return item_of<Mat<Eigen::Vector3d>>();
    case 28: return choose(2) ? item_of<Mat<Eigen::Matrix<double, 6, 1>>>() : item_of<Mat<Eigen::Matrix<double, 7, 1>>>();
    case 29: return item_of<Mat<Eigen::VectorXd>>();
    case 30: return item_of<Mat<Eigen::MatrixXd>>();
    case 31: return choose(2) ? item_of<Mat<Eigen::Matrix3Xd>>() : item_of<Mat<Eigen::Matrix3Xf>>();
    case 32: return item_of<Mat<Eigen::MatrixXf>>();
    case 33: return item_of<Iso>();
    case 34: return choose(2) ? item_of<RosPose>() : choose(2) ? item_of<RosTransform>() : choose(2) ? item_of<RosPoint>() : choose(2) ? item_of<RosVector3>() : item_of<RosQuaternion>();
    case 35: return choose(2) ? item_of<RosHeader>() : item_of<RosPoseStamped>();
    case 36: return item_of<RosTransformStamped>();
    default: return choose(2) ? item_of<Wrapped<RosPoint>>(4) : item_of<Wrapped<RosPoseStamped>>(4);
  }
}

struct Stream { std::vector<Item> items; Bytes bytes; std::vector<uint64_t> at; };
static Bytes exact(const Bytes& b) { Bytes x; x.reserve(b.size()); x.assign(b.begin(), b.end()); return x; }  // nothing usable behind the end

// the sender: items are appended to what the buffer already holds; memory may run out at any allocation
static void send(Stream& s, uint32_t who, bool mem) {
  if (choose(3) == 2) { uint32_t n = choose(12, "junk in front"); for (uint32_t i = 0; i < n; i++) s.bytes.push_back((uint8_t)choose(256)); }
  for (Item& it : s.items) {
    for (int attempt = 0;; attempt++) {
      Bytes before = s.bytes;
      bool ok = false;
      uint64_t n = 0;
      std::string err;
      try {
        if (mem && attempt < 2) { alloc_arm(true); }
        n = it.write(s.bytes);
        alloc_arm(false);
        ok = true;
      } catch (const std::bad_alloc&) {
        alloc_arm(false);
        err = "bad_alloc";
      } catch (const std::exception& x) { alloc_arm(false); err = x.what(); }
      bool prefix = s.bytes.size() >= before.size() && std::equal(before.begin(), before.end(), s.bytes.begin());
      SIM_CHECK(prefix, "earlier-bytes-lost", "serialising a %s changed bytes that were in the buffer before", it.kind.c_str());
      if (!ok) {
        SIM_CHECK(mem && err == "bad_alloc", "serialise-failed", "serialising a %s raised %s", it.kind.c_str(), err.c_str());
        probe("out of memory while serialising");
        s.bytes.resize(before.size());
        continue;
      }
      SIM_CHECK(n == s.bytes.size() - before.size(), "byte-count", "serialising a %s reported %llu bytes but appended %zu", it.kind.c_str(), (unsigned long long)n, s.bytes.size() - before.size());
      SIM_CHECK(n == it.ref.size() + it.slack && std::equal(it.ref.begin(), it.ref.end(), s.bytes.begin() + before.size()), "stream-layout",
                "a %s was serialised into %llu bytes that differ from its documented layout (%zu bytes)", it.kind.c_str(), (unsigned long long)n, it.ref.size() + it.slack);
      s.at.push_back(before.size());
      break;
    }
  }
  if (choose(3) == 2) { uint32_t n = choose(12, "junk behind"); for (uint32_t i = 0; i < n; i++) s.bytes.push_back((uint8_t)choose(256)); }
  event("sender %u: %zu items, %zu bytes", who, s.items.size(), s.bytes.size());
}

static void receive_whole(const Stream& s, const Bytes& b, bool mem) {
  bool forward = choose(3) != 2;  // in order, following the reported sizes; or any item on its own
  uint64_t at = s.items.empty() ? 0 : s.at[0];
  for (size_t k = 0; k < s.items.size(); k++) {
    size_t i = forward ? k : choose((uint32_t)s.items.size(), "which item");
    const Item& it = s.items[i];
    if (forward) SIM_CHECK(at == s.at[i], "position", "following the reported sizes leads to byte %llu instead of %llu", (unsigned long long)at, (unsigned long long)s.at[i]);
    else at = s.at[i];
    for (int attempt = 0;; attempt++) {
      bool eq = false, ok = false;
      uint64_t n = 0;
      std::string err;
      try {
        if (mem && attempt < 2) { alloc_arm(true); }
        n = it.read(b, at, &eq);
        ok = true;
      } catch (const std::bad_alloc&) {
        alloc_arm(false);
        err = "bad_alloc";
      } catch (const std::exception& x) { alloc_arm(false); err = x.what(); }
      alloc_arm(false);
      if (!ok) {
        SIM_CHECK(mem && err == "bad_alloc", "whole-item-refused", "reading a %s that arrived whole raised %s", it.kind.c_str(), err.c_str());
        probe("out of memory while reading");
        continue;
      }
      SIM_CHECK(eq, "value-differs", "a %s read back differently", it.kind.c_str());
      SIM_CHECK(n == it.ref.size() + it.slack, "bytes-read", "reading a %s of %zu bytes reported %llu bytes", it.kind.c_str(), it.ref.size() + it.slack, (unsigned long long)n);
      at += n;
      break;
    }
  }
}

// the receiver of a damaged stream: its own process, so that an assertion may end it.
// [bad, bad_end) did not arrive as sent.
static void receive_damaged(const Stream& s, const Bytes& b, size_t bad, size_t bad_end, const char* what) {
  size_t done = 0;
  std::string wrong;
  bool threw = false, indexed = choose(2, "reader has an index");
  assert_kills = true;
  Exit e = run_process([&] {
    uint64_t at = s.at[0];
    for (size_t i = 0; i < s.items.size(); i++) {
      const Item& it = s.items[i];
      bool eq = false;
      uint64_t n = 0;
      if (indexed) at = s.at[i];  // such a reader does not depend on sizes that were read
      try { n = it.read(b, at, &eq); } catch (const std::exception&) { threw = true; if (!indexed) return; continue; }
      if (at == s.at[i]) {
        uint64_t end = at + it.ref.size();
        if (end <= bad || at >= bad_end) {
          if (!eq || n != it.ref.size() + it.slack) { wrong = it.kind + " that arrived whole was read differently"; return; }
        } else if (bad_end > b.size()) { wrong = it.kind + " of which only a part had been received was returned"; return; }
        else probe("damaged value accepted");
      }
      done++;
      at += n;
    }
  }, "receiver");
  assert_kills = false;
  SIM_CHECK(wrong.empty(), "damage-misread", "%s: a %s", what, wrong.c_str());
  size_t whole = 0;
  while (whole < s.items.size() && s.at[whole] + s.items[whole].ref.size() + s.items[whole].slack <= bad) whole++;
  SIM_CHECK(done >= whole, "whole-item-refused", "%s: only %zu of %zu items that arrived whole were read (%s)", what, done, whole, e == EXIT_KILLED ? last_assert : threw ? "exception" : "?");
  if (e == EXIT_KILLED) probe("stopped by an assertion");
  else if (threw) probe("stopped by an exception");
}

SCENARIO(C43) {
  uint32_t nthreads = choose(3) == 2 ? 2 + choose(2, "threads") : 1;
  bool mem = choose(3, "memory") == 2;
  if (mem) alloc_faults(1 + choose(12));
  std::vector<Stream> ss(nthreads);
  for (auto& s : ss) { uint32_t n = 1 + choose(4, "items"); for (uint32_t i = 0; i < n; i++) s.items.push_back(gen_item()); }
  if (nthreads == 1) {
    send(ss[0], 0, mem);
    receive_whole(ss[0], exact(ss[0].bytes), mem);
  } else {  // several senders, then several receivers of everybody's streams, at the same time
    std::vector<int> t;
    for (uint32_t i = 0; i < nthreads; i++) t.push_back(spawn([&, i] { send(ss[i], i, mem); }, "sender"));
    for (int x : t) join(x);
    t.clear();
    std::vector<Bytes> got;
    for (auto& s : ss) got.push_back(exact(s.bytes));
    for (uint32_t i = 0; i < nthreads; i++) { uint32_t k = choose(nthreads, "whose stream"); t.push_back(spawn([&, k] { receive_whole(ss[k], got[k], mem); }, "receiver")); }
    for (int x : t) join(x);
    probe("several threads");
  }
  alloc_faults(0);
  nontrivial();
  // the same stream over a bad link or from a torn file
  uint32_t times = choose(3, "damaged deliveries");
  for (uint32_t k = 0; k < times; k++) {
    const Stream& s = ss[choose(nthreads)];
    Bytes b = s.bytes;
    if (b.empty() || s.at.empty()) continue;
    if (choose(2)) {
      size_t keep = choose((uint32_t)b.size(), "torn at");
      b.resize(keep);
      fault("torn_stream");
      receive_damaged(s, exact(b), keep, (size_t)-1, "a torn stream");
    } else {
      // damage: overwritten bytes, often in a length; sizes stay small or become absurd so that memory is not really taken
      size_t at = choose((uint32_t)b.size(), "damaged byte");
      if (choose(2)) at = s.at[choose((uint32_t)s.at.size())] + choose(16);
      if (at >= b.size()) at = b.size() - 1;
      for (size_t i = 0; i < s.at.size(); i++)  // matrices of absurd but possible size would really be filled
        if (at >= s.at[i] && at < s.at[i] + 16 && s.items[i].kind.compare(0, 5, "Eigen") == 0 && ((at - s.at[i]) % 8 == 2 || (at - s.at[i]) % 8 == 3)) at += 2;
      if (at >= b.size()) at = b.size() - 1;
      uint8_t v = (uint8_t)choose(256, "damage");
      if (b[at] == v) v ^= 1;
      b[at] = v;
      fault("damaged_byte");
      receive_damaged(s, exact(b), at, at + 1, "a damaged stream");
    }
  }
}

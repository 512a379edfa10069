// The ROS message types and the message serialisation that serialization_ros.hpp uses, as roscpp has them.
#pragma once
#include <boost/shared_array.hpp>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
namespace ros {
struct Time { uint32_t sec = 0, nsec = 0; };
struct SerializedMessage {
  boost::shared_array<uint8_t> buf;
  size_t num_bytes;
  uint8_t* message_start;
  SerializedMessage() : num_bytes(0), message_start(nullptr) {}
  SerializedMessage(boost::shared_array<uint8_t> b, size_t n) : buf(b), num_bytes(n), message_start(buf ? buf.get() : nullptr) {}
};
}  // namespace ros
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}  // namespace geometry_msgs
namespace ros {
namespace serialization {
struct StreamOverrunException : std::runtime_error { StreamOverrunException() : std::runtime_error("Buffer Overrun") {} };
struct OStream {
  uint8_t* p; uint32_t left;
  void put(const void* s, uint32_t n) { if (n > left) throw StreamOverrunException(); memcpy(p, s, n); p += n; left -= n; }
};
struct IStream {
  const uint8_t* p; uint32_t left;
  void get(void* d, uint32_t n) { if (n > left) throw StreamOverrunException(); memcpy(d, p, n); p += n; left -= n; }
};
inline uint32_t serializationLength(const std_msgs::Header& h) { return 16 + (uint32_t)h.frame_id.size(); }
inline uint32_t serializationLength(const geometry_msgs::Point&) { return 24; }
inline uint32_t serializationLength(const geometry_msgs::PoseStamped& p) { return serializationLength(p.header) + 56; }
inline void put(OStream& s, const std_msgs::Header& h) {
  s.put(&h.seq, 4); s.put(&h.stamp.sec, 4); s.put(&h.stamp.nsec, 4);
  uint32_t n = (uint32_t)h.frame_id.size();
  s.put(&n, 4);
  if (n) s.put(h.frame_id.data(), n);
}
inline void put(OStream& s, const geometry_msgs::Point& p) { s.put(&p, 24); }
inline void put(OStream& s, const geometry_msgs::PoseStamped& p) { put(s, p.header); s.put(&p.pose, 56); }
inline void get(IStream& s, std_msgs::Header& h) {
  s.get(&h.seq, 4); s.get(&h.stamp.sec, 4); s.get(&h.stamp.nsec, 4);
  uint32_t n;
  s.get(&n, 4);
  if (n > s.left) throw StreamOverrunException();
  h.frame_id.assign((const char*)s.p, n);
  s.p += n; s.left -= n;
}
inline void get(IStream& s, geometry_msgs::Point& p) { s.get(&p, 24); }
inline void get(IStream& s, geometry_msgs::PoseStamped& p) { get(s, p.header); s.get(&p.pose, 56); }
template <typename M> inline SerializedMessage serializeMessage(const M& message) {
  SerializedMessage m;
  uint32_t len = serializationLength(message);
  m.num_bytes = len + 4;
  m.buf.reset(new uint8_t[m.num_bytes]);
  OStream s{m.buf.get(), (uint32_t)m.num_bytes};
  s.put(&len, 4);
  m.message_start = s.p;
  put(s, message);
  return m;
}
template <typename M> inline void deserializeMessage(const SerializedMessage& m, M& message) {
  IStream s{m.message_start, (uint32_t)(m.num_bytes - (m.message_start - m.buf.get()))};
  get(s, message);
}
}  // namespace serialization
}  // namespace ros

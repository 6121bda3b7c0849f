// Simulated ROS: the part of the client library that the visualisation node uses (and some that it might come to use).
// Every call is an event of the simulation: it may take time, during which subscribers come and go, the clock is set, and
// the node is told to shut down. node.cpp owns the world behind it.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace std_msgs
{
struct Header
{
  uint32_t seq = 0;
  std::string frame_id;
};
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
struct String { std::string data; };
struct Float64 { double data = 0; };
}  // namespace std_msgs
namespace ros
{
struct Duration
{
  int32_t sec = 0, nsec = 0;
  double v = 0;
  Duration() {}
  explicit Duration(double s) : sec((int32_t)std::floor(s)), nsec((int32_t)((s - std::floor(s)) * 1e9)), v(s) {}
  Duration(int32_t s, int32_t ns) : sec(s), nsec(ns), v(s + 1e-9 * ns) {}
  double toSec() const { return v; }
  int64_t toNSec() const { return (int64_t)(v * 1e9); }
  bool isZero() const { return v == 0; }
  bool sleep() const;
  Duration operator+(const Duration &o) const { return Duration(v + o.v); }
  Duration operator-(const Duration &o) const { return Duration(v - o.v); }
  Duration operator-() const { return Duration(-v); }
  Duration operator*(double s) const { return Duration(v * s); }
  Duration &operator+=(const Duration &o) { return *this = Duration(v + o.v); }
  Duration &operator-=(const Duration &o) { return *this = Duration(v - o.v); }
  bool operator<(const Duration &o) const { return v < o.v; }
  bool operator>(const Duration &o) const { return v > o.v; }
  bool operator<=(const Duration &o) const { return v <= o.v; }
  bool operator>=(const Duration &o) const { return v >= o.v; }
  bool operator==(const Duration &o) const { return v == o.v; }
  bool operator!=(const Duration &o) const { return v != o.v; }
};
struct WallDuration : Duration
{
  WallDuration() {}
  explicit WallDuration(double s) : Duration(s) {}
};
struct Time
{
  uint32_t sec = 0, nsec = 0;
  double v = 0;
  Time() {}
  explicit Time(double s) : sec((uint32_t)s), nsec((uint32_t)((s - std::floor(s)) * 1e9)), v(s) {}
  double toSec() const { return v; }
  uint64_t toNSec() const { return (uint64_t)(v * 1e9); }
  bool isZero() const { return v == 0; }
  static Time now();
  static bool isValid() { return true; }
  static bool isSimTime() { return false; }
  static bool isSystemTime() { return true; }
  static bool waitForValid() { return true; }
  static void init() {}
  static bool sleepUntil(const Time &t) { return (t - now()).v > 0 ? (t - now()).sleep() : true; }
  Duration operator-(const Time &o) const { return Duration(v - o.v); }
  Time operator+(const Duration &o) const { return Time(v + o.v); }
  Time operator-(const Duration &o) const { return Time(v - o.v); }
  Time &operator+=(const Duration &o) { return *this = Time(v + o.v); }
  bool operator<(const Time &o) const { return v < o.v; }
  bool operator>(const Time &o) const { return v > o.v; }
  bool operator<=(const Time &o) const { return v <= o.v; }
  bool operator>=(const Time &o) const { return v >= o.v; }
  bool operator==(const Time &o) const { return v == o.v; }
  bool operator!=(const Time &o) const { return v != o.v; }
};
struct WallTime  // steady enough here: it does not jump
{
  double v = 0;
  WallTime() {}
  explicit WallTime(double s) : v(s) {}
  double toSec() const { return v; }
  static WallTime now();
  WallDuration operator-(const WallTime &o) const { return WallDuration(v - o.v); }
  WallTime operator+(const WallDuration &o) const { return WallTime(v + o.v); }
  bool operator<(const WallTime &o) const { return v < o.v; }
  bool operator>(const WallTime &o) const { return v > o.v; }
  bool operator<=(const WallTime &o) const { return v <= o.v; }
  bool operator>=(const WallTime &o) const { return v >= o.v; }
};
typedef WallTime SteadyTime;
struct Rate
{
  double period, last;
  explicit Rate(double hz);
  explicit Rate(const Duration &d);
  bool sleep();
  void reset();
  Duration expectedCycleTime() const { return Duration(period); }
};
typedef Rate WallRate;
}  // namespace ros
namespace geometry_msgs
{
struct Point { double x = 0, y = 0, z = 0; };
struct Point32 { float x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct Header_ { uint32_t seq = 0; ros::Time stamp; std::string frame_id; };
struct PoseStamped { Header_ header; Pose pose; };
struct PoseArray { Header_ header; std::vector<Pose> poses; };
struct Polygon { std::vector<Point32> points; };
struct PolygonStamped { Header_ header; Polygon polygon; };
}  // namespace geometry_msgs
namespace nav_msgs
{
struct Path { geometry_msgs::Header_ header; std::vector<geometry_msgs::PoseStamped> poses; };
}  // namespace nav_msgs
namespace visualization_msgs
{
struct Marker
{
  enum { ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8,
         TEXT_VIEW_FACING = 9, MESH_RESOURCE = 10, TRIANGLE_LIST = 11 };
  enum { ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3 };
  geometry_msgs::Header_ header;
  std::string ns;
  int32_t id = 0, type = 0, action = 0;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  ros::Duration lifetime;
  uint8_t frame_locked = 0;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
  std::string text, mesh_resource;
  bool mesh_use_embedded_materials = false;
};
struct MarkerArray { std::vector<Marker> markers; };
}  // namespace visualization_msgs
namespace ros
{
struct Msg  // what travels: exactly one of them is used
{
  nav_msgs::Path path;
  geometry_msgs::PoseArray poses;
  visualization_msgs::MarkerArray markers;
  char kind = 0;  // 'p' path, 'a' pose array, 'm' markers, 0 something else
};
inline void pack(Msg &m, const nav_msgs::Path &v) { m.path = v; m.kind = 'p'; }
inline void pack(Msg &m, const geometry_msgs::PoseArray &v) { m.poses = v; m.kind = 'a'; }
inline void pack(Msg &m, const visualization_msgs::MarkerArray &v) { m.markers = v; m.kind = 'm'; }
inline void pack(Msg &m, const visualization_msgs::Marker &v) { m.markers.markers.push_back(v); m.kind = 'm'; }
template <class T> inline void pack(Msg &, const T &) {}
void sim_publish(const std::string &topic, Msg &&m);
uint32_t sim_subscribers(const std::string &topic);
void sim_advertise(const std::string &topic, int delta);
bool sim_param(const std::string &name, double &v);
void sim_call();
struct Advert
{
  std::string topic;
  explicit Advert(const std::string &t) : topic(t) { sim_advertise(topic, 1); }
  ~Advert() { sim_advertise(topic, -1); }
};
struct Publisher
{
  std::shared_ptr<Advert> a;
  uint32_t getNumSubscribers() const { return a ? sim_subscribers(a->topic) : 0; }
  std::string getTopic() const { return a ? a->topic : ""; }
  bool isLatched() const { return false; }
  void shutdown() { a.reset(); }
  operator void *() const { return a ? (void *)a.get() : nullptr; }
  template <class T> void publish(const T &v) const
  {
    if (!a) return;
    Msg m;
    pack(m, v);
    sim_publish(a->topic, std::move(m));
  }
  template <class T> void publish(const std::shared_ptr<T> &v) const { publish(*v); }
};
struct Subscriber {};
struct SingleSubscriberPublisher { std::string getTopic() const { return ""; } };
struct NodeHandle
{
  std::string ns;
  NodeHandle(const std::string &n = "") : ns(n == "~" ? "/steering_functions/" : n.empty() ? "/" : n[0] == '~' ? "/steering_functions/" + n.substr(1) + "/" : "/" + n + "/") {}
  NodeHandle(const NodeHandle &p, const std::string &n) : ns(p.ns + n + "/") {}
  std::string resolveName(const std::string &n) const { return !n.empty() && n[0] == '/' ? n : !n.empty() && n[0] == '~' ? "/steering_functions/" + n.substr(1) : ns + n; }
  std::string getNamespace() const { return ns; }
  bool ok() const;
  void shutdown() {}
  bool getParam(const std::string &n, double &v) const { return sim_param(resolveName(n), v); }
  bool getParam(const std::string &n, float &v) const { double d; if (!sim_param(resolveName(n), d)) return false; v = (float)d; return true; }
  bool getParam(const std::string &n, int &v) const { double d; if (!sim_param(resolveName(n), d)) return false; v = (int)d; return true; }
  bool getParam(const std::string &n, bool &v) const { double d; if (!sim_param(resolveName(n), d)) return false; v = d != 0; return true; }
  bool getParam(const std::string &, std::string &) const { return false; }
  bool getParamCached(const std::string &n, double &v) const { return getParam(n, v); }
  bool hasParam(const std::string &n) const { double d; return sim_param(resolveName(n), d); }
  template <class T> bool param(const std::string &n, T &v, const T &def) const
  {
    if (getParam(n, v)) return true;
    v = def;
    return false;
  }
  template <class T> T param(const std::string &n, const T &def) const
  {
    T v;
    param(n, v, def);
    return v;
  }
  template <class T> Publisher advertise(const std::string &t, uint32_t = 1, bool = false)
  {
    Publisher p;
    p.a = std::make_shared<Advert>(resolveName(t));
    return p;
  }
};
namespace param
{
inline bool get(const std::string &n, double &v) { return NodeHandle().getParam(n, v); }
template <class T> bool param(const std::string &n, T &v, const T &def) { return NodeHandle().param(n, v, def); }
inline bool has(const std::string &n) { return NodeHandle().hasParam(n); }
}  // namespace param
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int &, char **, const std::string &, uint32_t = 0) {}
namespace master { inline bool check() { sim_call(); return true; } }
namespace this_node { inline std::string getName() { return "/steering_functions"; } }
bool ok();
inline bool isShuttingDown() { return !ok(); }
inline bool isInitialized() { return true; }
inline bool isStarted() { return true; }
inline void start() {}
inline void waitForShutdown() { while (ok()) Duration(0.05).sleep(); }
void shutdown();
inline void requestShutdown() { shutdown(); }
void spinOnce();
inline void spin() { while (ok()) Duration(0.01).sleep(); }
struct AsyncSpinner
{
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
}  // namespace ros
#define SIM_ROSLOG(...) do { ros::sim_call(); if (0) std::printf(__VA_ARGS__); } while (0)
#define SIM_ROSSTREAM(x) do { ros::sim_call(); std::ostringstream sim_oss; sim_oss << x; } while (0)
#define ROS_DEBUG(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_INFO(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_WARN(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_ERROR(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_FATAL(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_INFO_ONCE(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_WARN_ONCE(...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) SIM_ROSLOG(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) SIM_ROSSTREAM(x)
#define ROS_INFO_STREAM(x) SIM_ROSSTREAM(x)
#define ROS_WARN_STREAM(x) SIM_ROSSTREAM(x)
#define ROS_ERROR_STREAM(x) SIM_ROSSTREAM(x)
#define ROS_ASSERT(x) do { if (!(x)) __builtin_trap(); } while (0)

namespace tf
{
typedef double tfScalar;
struct Vector3
{
  double v[3];
  Vector3(double x = 0, double y = 0, double z = 0) { v[0] = x; v[1] = y; v[2] = z; }
  double x() const { return v[0]; }
  double y() const { return v[1]; }
  double z() const { return v[2]; }
  double getX() const { return v[0]; }
  double getY() const { return v[1]; }
  double getZ() const { return v[2]; }
};
struct Quaternion
{
  double q[4] = { 0, 0, 0, 1 };
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double x() const { return q[0]; }
  double y() const { return q[1]; }
  double z() const { return q[2]; }
  double w() const { return q[3]; }
  double getX() const { return q[0]; }
  double getY() const { return q[1]; }
  double getZ() const { return q[2]; }
  double getW() const { return q[3]; }
  void setValue(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double length2() const { return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; }
  Quaternion &normalize()
  {
    double l = std::sqrt(length2());
    for (double &e : q) e /= l;
    return *this;
  }
  void setRPY(double r, double p, double y)
  {
    double cy = std::cos(y / 2), sy = std::sin(y / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cr = std::cos(r / 2), sr = std::sin(r / 2);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
};
struct Matrix3x3
{
  double m[3][3];
  Matrix3x3() { for (auto &r : m) for (double &e : r) e = 0; }
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { setValue(a, b, c, d, e, f, g, h, i); }
  void setValue(double a, double b, double c, double d, double e, double f, double g, double h, double i)
  {
    double t[9] = { a, b, c, d, e, f, g, h, i };
    for (int k = 0; k < 9; k++) m[k / 3][k % 3] = t[k];
  }
  const double *operator[](int i) const { return m[i]; }
  double *operator[](int i) { return m[i]; }
  void getRotation(Quaternion &q) const
  {  // as tf does
    double tr = m[0][0] + m[1][1] + m[2][2], t[4];
    if (tr > 0)
    {
      double s = std::sqrt(tr + 1);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m[2][1] - m[1][2]) * s;
      t[1] = (m[0][2] - m[2][0]) * s;
      t[2] = (m[1][0] - m[0][1]) * s;
    }
    else
    {
      int i = m[0][0] < m[1][1] ? (m[1][1] < m[2][2] ? 2 : 1) : (m[0][0] < m[2][2] ? 2 : 0);
      int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m[i][i] - m[j][j] - m[k][k] + 1);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m[k][j] - m[j][k]) * s;
      t[j] = (m[j][i] + m[i][j]) * s;
      t[k] = (m[k][i] + m[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
};
inline void quaternionTFToMsg(const Quaternion &q, geometry_msgs::Quaternion &m)
{
  m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w();
}
inline void quaternionMsgToTF(const geometry_msgs::Quaternion &m, Quaternion &q) { q.setValue(m.x, m.y, m.z, m.w); }
inline Quaternion createQuaternionFromYaw(double y) { return Quaternion(0, 0, std::sin(y / 2), std::cos(y / 2)); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y)
{
  geometry_msgs::Quaternion q;
  q.z = std::sin(y / 2);
  q.w = std::cos(y / 2);
  return q;
}
inline double getYaw(const geometry_msgs::Quaternion &q) { return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
}  // namespace tf
namespace costmap_2d
{
std::vector<geometry_msgs::Point> makeFootprintFromParams(ros::NodeHandle &nh);
inline void transformFootprint(double x, double y, double theta, const std::vector<geometry_msgs::Point> &spec,
                               std::vector<geometry_msgs::Point> &out)
{
  out.clear();
  double c = std::cos(theta), s = std::sin(theta);
  for (auto &p : spec)
  {
    geometry_msgs::Point q;
    q.x = x + (p.x * c - p.y * s);
    q.y = y + (p.x * s + p.y * c);
    out.push_back(q);
  }
}
}  // namespace costmap_2d

// Node simulator (C11, C12): the real node (src/steering_functions_node.cpp, compiled with -Dmain=node_main) and the real
// library run against a simulated ROS: clock, parameter server, topics, subscribers, shutdown. Time is simulated; every ROS
// call of the node is a point at which time passes and the world may change.
//
//   clock T0                    wall clock at the start
//   cost C                      a ROS call takes C seconds
//   late SEED MAX               sleeps last up to MAX seconds longer than asked for
//   cut B                       sleeps are cut short by a shutdown (B = 1) or not (0)
//   param NAME VALUE            parameter set on the server (others are missing)
//   footprint N A B             polygon of the robot
//   sub T TOPIC LATENCY         a subscriber appears; connecting to an advertised topic takes LATENCY
//   unsub T TOPIC               the oldest subscriber of the topic leaves
//   jump T DELTA                the wall clock is set
//   stall T D                   the process is not scheduled for D seconds
//   shutdown T
//   end T
#include <algorithm>
#include <Eigen/Dense>
#include "core.hpp"
#include "ros/simros.hpp"

int node_main(int, char **);

namespace sim
{
namespace
{
const char *const TOPICS[5] = { "path", "poses", "text", "covariances", "swath" };
const std::string NS = "/steering_functions/visualization_";
struct Stop {};
struct Sub { double from, to, lat; };
struct Topic
{
  int adverts = 0;
  double epoch = 0;
  std::vector<Sub> subs;
};
struct Rec
{
  double t;
  int topic;
  bool had_sub;
  unsigned nsub;
  ros::Msg m;
};
struct Ev
{
  double t;
  std::string op;
  double a;
};
struct World
{
  Out *out = nullptr;
  double t = 0, clock = 1.5e9, off = 0, cost = 1e-5, end = 60, shut = 1e18, stalled = 0;
  double late_max = 0;
  Rng late{ 1 };
  bool cut = false, down = false, over = false;
  Topic top[5];
  std::map<std::string, double> par;
  std::vector<geometry_msgs::Point> foot;
  std::vector<Ev> ev;
  size_t next = 0;
  std::vector<Rec> rec;
  uint64_t calls = 0;
  int displays = 0;
  char last_call = 'i';
  unsigned connected(int i, double at) const
  {
    if (down || top[i].adverts == 0) return 0;
    unsigned n = 0;
    for (auto &s : top[i].subs) n += at >= std::max(s.from, top[i].epoch) + s.lat && at < s.to;
    return n;
  }
  bool had(int i, double at) const
  {
    for (auto &s : top[i].subs)
    {
      double c = std::max(s.from, top[i].epoch) + s.lat;
      if (c <= at && c < s.to) return true;
    }
    return false;
  }
  int mask() const
  {
    int m = 0;
    for (int i = 0; i < 5; i++) m |= (connected(i, t) > 0) << i;
    return m;
  }
  void pass(double d, bool may_throw)
  {
    double to = t + d;
    while (next < ev.size() && ev[next].t <= to)
    {
      const Ev &e = ev[next++];
      if (e.t > t) t = e.t;
      int was = mask();
      if (e.op == "jump") { off += e.a; out->add("fault.clock_jump"); }
      else if (e.op == "stall") { to += e.a; stalled += e.a; out->add("fault.stall"); }
      else if (e.op == "shutdown") { down = true; out->add("fault.shutdown"); if (cut && last_call == 's') to = t; }
      Hash h;
      h.s(e.op);
      h.raw((uint64_t)(displays % 13));
      h.raw((uint64_t)was);
      h.raw((uint64_t)last_call);
      out->state(h.h);
    }
    if (to > t) t = to;
    if (may_throw && t >= end) { over = true; throw Stop(); }
  }
  void call(char c)
  {
    last_call = c;
    ++calls;
    pass(cost, true);
    if (calls > 20000000) { over = true; throw Stop(); }
  }
};
World *w;
int topic_of(const std::string &n)
{
  for (int i = 0; i < 5; i++)
    if (n == NS + TOPICS[i]) return i;
  return -1;
}
}  // namespace
}  // namespace sim

namespace ros
{
using sim::w;
bool Duration::sleep() const
{
  w->last_call = 's';
  ++w->calls;
  double d = v > 0 ? v : 0;
  if (w->late_max > 0 && d > 0) d += w->late.u() * w->late_max;
  w->pass(d + w->cost, true);
  return !w->down;
}
Time Time::now() { w->call('t'); return Time(w->clock + w->t + w->off); }
WallTime WallTime::now() { w->call('t'); return WallTime(w->t); }
Rate::Rate(double hz) : period(1 / hz), last(w->t) {}
Rate::Rate(const Duration &d) : period(d.toSec()), last(w->t) {}
void Rate::reset() { last = w->t; }
bool Rate::sleep()
{
  double d = last + period - w->t;
  last = d > 0 ? last + period : w->t;
  return d > 0 ? Duration(d).sleep() : Duration(0).sleep();
}
bool ok() { w->call('o'); return !w->down; }
bool NodeHandle::ok() const { return ros::ok(); }
void shutdown() { w->call('x'); w->down = true; }
void spinOnce() { w->call('p'); }
void sim_call() { w->call('l'); }
void sim_advertise(const std::string &topic, int delta)
{
  int i = sim::topic_of(topic);
  if (i < 0) return;
  if (w->top[i].adverts == 0 && delta > 0) w->top[i].epoch = w->t;
  w->top[i].adverts += delta;
  if (delta > 0) w->call('a');
}
uint32_t sim_subscribers(const std::string &topic)
{
  w->call('n');
  int i = sim::topic_of(topic);
  return i < 0 ? 0 : w->connected(i, w->t);
}
bool sim_param(const std::string &name, double &v)
{
  w->call('g');
  auto it = w->par.find(name);
  if (it == w->par.end()) return false;
  v = it->second;
  return true;
}
void sim_publish(const std::string &topic, Msg &&m)
{
  w->call('u');
  int i = sim::topic_of(topic);
  if (i < 0 || w->down) return;
  if (w->rec.size() < 4000) w->rec.push_back(sim::Rec{ w->t, i, w->had(i, w->t), w->connected(i, w->t), std::move(m) });
  if (i == 4) ++w->displays;
}
}  // namespace ros
namespace costmap_2d
{
std::vector<geometry_msgs::Point> makeFootprintFromParams(ros::NodeHandle &)
{
  sim::w->call('g');
  return sim::w->foot;
}
}  // namespace costmap_2d

namespace sim
{
namespace
{
const char *const TYPE[13] = { "CC_Dubins", "CC00_Dubins", "CC0pm_Dubins", "CCpm0_Dubins", "CCpmpm_Dubins", "Dubins", "CC00_RS",
                               "HC_RS", "HC00_RS", "HC0pm_RS", "HCpm0_RS", "HCpmpm_RS", "RS" };
int kind_at(int i)
{
  static const int k[13] = { 0, 2, 4, 6, 8, 10, 12, 13, 14, 15, 16, 17, 18 };
  return k[i];
}
double yaw(const geometry_msgs::Quaternion &q) { return 2 * std::atan2(q.z, q.w); }
typedef Eigen::Matrix3d M3;
M3 cov3(const State_With_Covariance &s)
{
  M3 m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m(i, j) = s.covariance[4 * i + j];
  return m;
}

struct Checker
{
  World &wd;
  Out &out;
  double kmax, smax, wb, tw, wr, ww;
  Noise nz;
  State cyc_start{ 0, 0, 0, 0, 0 }, cyc_goal{ 0, 0, 0, 0, 0 };
  // what is on the screen of a viewer that receives everything
  struct Shown { visualization_msgs::Marker m; double until; int display; };
  std::map<std::pair<std::string, int>, Shown> text, cov, swath;

  double par(const char *n, double def) const
  {
    auto it = wd.par.find(std::string("/") + n);
    return it == wd.par.end() ? def : it->second;
  }
  Checker(World &x, Out &o) : wd(x), out(o)
  {
    kmax = par("kappa_max", 1.0);
    smax = par("sigma_max", 1.0);
    wb = par("wheel_base", 0);
    tw = par("track_width", 0);
    wr = par("wheel_radius", 0);
    ww = par("wheel_width", 0);
    nz.motion.alpha1 = par("motion_noise/alpha1", 0.1);
    nz.motion.alpha2 = par("motion_noise/alpha2", 0.0);
    nz.motion.alpha3 = par("motion_noise/alpha3", 0.0);
    nz.motion.alpha4 = par("motion_noise/alpha4", 0.1);
    nz.meas.std_x = par("measurement_noise/std_x", 0.1);
    nz.meas.std_y = par("measurement_noise/std_y", 0.1);
    nz.meas.std_theta = par("measurement_noise/std_theta", 0.01);
    nz.ctrl.k1 = par("controller/k1", 1.0);
    nz.ctrl.k2 = par("controller/k2", 1.0);
    nz.ctrl.k3 = par("controller/k3", 1.0);
  }
  static bool near(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e * (1 + std::fabs(b)); }
  bool bad(const char *cls, const std::string &d) { out.viol(cls, d); return false; }

  CovPath expect(int i, State a, State b) const
  {
    Params p;
    p.kappa = kmax;
    p.sigma = smax;
    p.disc = 0.1;
    std::unique_ptr<Space> s = make_space(kind_at(i), p);
    s->set_filter(nz);
    State_With_Covariance x;
    for (int k = 0; k < 16; k++) x.Sigma[k] = x.Lambda[k] = x.covariance[k] = 0;
    x.state = a;
    x.Sigma[0] = x.covariance[0] = nz.meas.std_x * nz.meas.std_x;
    x.Sigma[5] = x.covariance[5] = nz.meas.std_y * nz.meas.std_y;
    x.Sigma[10] = x.covariance[10] = nz.meas.std_theta * nz.meas.std_theta;
    return s->path_cov(x, b);
  }
  bool matches(const nav_msgs::Path &p, const CovPath &q, double tol) const
  {
    if (p.poses.size() != q.size()) return false;
    for (size_t i = 0; i < q.size(); i++)
    {
      const geometry_msgs::Pose &a = p.poses[i].pose;
      const State &s = q[i].state;
      if (!near(a.position.x, s.x, tol) || !near(a.position.y, s.y, tol) || ang(yaw(a.orientation) - s.theta) > tol) return false;
    }
    return true;
  }
  // front left wheel angle of the state whose wheels start at point i
  double steer(const std::vector<geometry_msgs::Point> &p, size_t i, double th) const
  {
    if (p.size() < i + 16) return NAN;
    double fx = p[i].x + p[i + 1].x, fy = p[i].y + p[i + 1].y, rx = p[i + 4].x + p[i + 5].x, ry = p[i + 4].y + p[i + 5].y;
    double a = std::remainder(std::atan2(fy - ry, fx - rx) - th, 2 * M_PI);
    return a;
  }
  double curvature(double a) const
  {
    if (std::fabs(a) < 1e-9) return 0;
    return 1 / (wb / std::tan(a) + tw / 2);
  }
  // the closed polygon is drawn as line list in points [i, i + 2 n)
  bool polygon(const std::vector<geometry_msgs::Point> &p, size_t i, const std::vector<geometry_msgs::Point> &poly, double x, double y, double th,
               double tol) const
  {
    size_t n = poly.size();
    if (p.size() < i + 2 * n) return false;
    std::vector<geometry_msgs::Point> q;
    costmap_2d::transformFootprint(x, y, th, poly, q);
    auto at = [&](const geometry_msgs::Point &a, const geometry_msgs::Point &b) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol; };
    for (size_t e = 0; e < n; e++)
    {
      const geometry_msgs::Point &a = q[(e + n - 1) % n], &b = q[e];
      bool found = false;
      for (size_t k = 0; k < n && !found; k++)
      {
        size_t f = (e + k) % n;
        const geometry_msgs::Point &c = p[i + 2 * f], &d = p[i + 2 * f + 1];
        found = (at(a, c) && at(b, d)) || (at(a, d) && at(b, c));
      }
      if (!found) return false;
    }
    return true;
  }
  void show_on(std::map<std::pair<std::string, int>, Shown> &scr, const Rec &r, int k)
  {
    for (auto &m : r.m.markers.markers)
    {
      auto key = std::make_pair(m.ns, (int)m.id);
      if (m.action == visualization_msgs::Marker::DELETEALL) scr.clear();
      else if (m.action == visualization_msgs::Marker::DELETE) scr.erase(key);
      else scr[key] = Shown{ m, m.lifetime.toSec() > 0 ? r.t + m.lifetime.toSec() : 1e18, k };
    }
  }
  std::vector<Shown> visible(std::map<std::pair<std::string, int>, Shown> &scr, double t)
  {
    std::vector<Shown> v;
    for (auto &s : scr)
      if (s.second.until > t && s.second.m.color.a > 0) v.push_back(s.second);
    return v;
  }
  bool frame(const std::string &f) const { return f == "/world" || f == "world"; }

  // one complete display: k-th message of every topic
  bool display(int k, const Rec *r[5])
  {
    int i = k % 13;
    std::string who = fmt("display %d (%s) at t=%.3f", k, TYPE[i], r[0]->t);
    double lo = r[0]->t, hi = r[0]->t;
    for (int q = 0; q < 5; q++) { lo = std::min(lo, r[q]->t); hi = std::max(hi, r[q]->t); }
    if (hi - lo > 1 + wd.stalled + 500 * wd.cost) return bad("node-mixed-display", who + ": its messages are published over " + fmt("%.3f s", hi - lo));
    // kinds of messages, frames
    if (r[0]->m.kind != 'p' || r[1]->m.kind != 'a' || r[2]->m.kind != 'm' || r[3]->m.kind != 'm' || r[4]->m.kind != 'm')
      return bad("node-message-type", who);
    const nav_msgs::Path &path = r[0]->m.path;
    const geometry_msgs::PoseArray &poses = r[1]->m.poses;
    bool fr = frame(path.header.frame_id) && frame(poses.header.frame_id);
    for (int q = 2; q < 5; q++)
      for (auto &m : r[q]->m.markers.markers) fr = fr && frame(m.header.frame_id);
    if (!fr) return bad("node-frame", who + ": a message is not in the world frame");
    // start and goal
    if (poses.poses.size() != 2) return bad("node-poses", who + fmt(": %zu poses instead of start and goal", poses.poses.size()));
    State a{ poses.poses[0].position.x, poses.poses[0].position.y, yaw(poses.poses[0].orientation), 0, 0 };
    State b{ poses.poses[1].position.x, poses.poses[1].position.y, yaw(poses.poses[1].orientation), 0, 0 };
    for (const State *s : { &a, &b })
      if (!(std::fabs(s->x) <= 10 + 1e-9 && std::fabs(s->y) <= 10 + 1e-9 && std::fabs(s->theta) <= M_PI + 1e-9))
        return bad("node-region", who + ": outside the operating region: " + sim::show(*s));
    auto same = [](const State &p, const State &q) { return p.x == q.x && p.y == q.y && p.theta == q.theta; };
    if (i == 0)
    {
      if (k > 0 && (same(a, cyc_start) || same(b, cyc_goal))) return bad("node-new-goals", who + ": start or goal is that of the last cycle");
      cyc_start = a;
      cyc_goal = b;
    }
    else if (!same(a, cyc_start) || !same(b, cyc_goal)) return bad("node-same-goals", who + ": start or goal differs within the cycle");
    // texts on the screen
    show_on(text, *r[2], k);
    int ns = 0, ng = 0, nl = 0, other = 0;
    for (auto &s : visible(text, r[2]->t + 0.5))
    {
      double x = s.m.pose.position.x, y = s.m.pose.position.y;
      if (!(s.m.scale.z > 0) || s.m.type != visualization_msgs::Marker::TEXT_VIEW_FACING) { ++other; continue; }
      if (s.m.text == "start" && near(x, a.x) && near(y, a.y)) ++ns;
      else if (s.m.text == "goal" && near(x, b.x) && near(y, b.y)) ++ng;
      else if (s.m.text == fmt("%d) %s Steer", i + 1, TYPE[i])) ++nl;
      else ++other;
    }
    if (ns != 1 || ng != 1 || nl != 1 || other)
    {
      std::string shown;
      for (auto &s : visible(text, r[2]->t + 0.5)) shown += fmt("\"%s\" at (%.6g %.6g) ", s.m.text.c_str(), s.m.pose.position.x, s.m.pose.position.y);
      return bad("node-labels", who + ": expected start, goal and \"" + fmt("%d) %s Steer", i + 1, TYPE[i]) + "\", shown " + shown);
    }
    // the swath carries the curvature
    show_on(swath, *r[4], k);
    const visualization_msgs::Marker *chassis = nullptr, *wheels = nullptr;
    std::vector<Shown> vis = visible(swath, r[4]->t + 0.5);
    size_t np = path.poses.size(), nf = wd.foot.size();
    if (np < 1) return bad("node-path", who + ": empty path");
    for (auto &s : vis)
    {
      if (s.m.type != visualization_msgs::Marker::LINE_LIST || !(s.m.scale.x > 0)) return bad("node-swath", who + ": marker of another kind in the swath");
      if (!chassis && s.m.points.size() == np * nf * 2) chassis = &s.m;
      else if (!wheels && s.m.points.size() == np * 16) wheels = &s.m;
    }
    if (vis.size() != 2 || !chassis || !wheels)
    {
      std::string shown;
      for (auto &s : vis) shown += fmt("%zu points ", s.m.points.size());
      return bad("node-swath", who + fmt(": swath of %zu states with %zu corners shown as ", np, nf) + shown);
    }
    // the path
    double ka = 0, kb = 0;
    bool strict = true;
    CovPath want;
    if (i == 0 || i == 7)
    {
      double sa = steer(wheels->points, 0, yaw(path.poses[0].pose.orientation)), sb = steer(wheels->points, (np - 1) * 16, yaw(path.poses[np - 1].pose.orientation));
      ka = curvature(sa);
      kb = curvature(sb);
      if (!(std::fabs(ka) <= kmax * (1 + 1e-6)) || !(std::fabs(kb) <= kmax * (1 + 1e-6)))
        return bad("node-path", who + fmt(": curvature at start %.9g, goal %.9g, limit %.9g", ka, kb, kmax));
      if (ka == 0 || kb == 0) strict = false;  // below what the wheels show
      ka = std::max(-kmax, std::min(kmax, ka));
      kb = std::max(-kmax, std::min(kmax, kb));
    }
    a.kappa = ka;
    b.kappa = kb;
    want = expect(i, a, b);
    // the library takes curvatures within 1e-4 of zero and of the limit for these
    const double tol = i == 0 || i == 7 ? 3e-3 : 1e-5;
    bool eq = matches(path, want, tol);
    // headings (and curvatures) are recovered up to rounding only, which may decide between two equally short paths
    if (!eq)
    {
      Rng rr(7);
      auto ulp = [&](double v) {
        for (int n = rr.below(13) - 6; n != 0; n += n < 0 ? 1 : -1) v = std::nextafter(v, n < 0 ? -10.0 : 10.0);
        return v;
      };
      auto lim = [&](double v) { return std::max(-kmax, std::min(kmax, v)); };
      for (int q = 0; q < 300 && !eq; q++)
      {
        State a2 = a, b2 = b;
        a2.theta = ulp(a.theta);
        b2.theta = ulp(b.theta);
        if (i == 0 || i == 7)
        {
          a2.kappa = lim(ka + rr.normal() * rr.logu(1e-14, 1e-4));
          b2.kappa = lim(kb + rr.normal() * rr.logu(1e-14, 1e-4));
        }
        CovPath w2 = expect(i, a2, b2);
        if (matches(path, w2, tol)) { eq = true; want = w2; out.add("op.equally_short_path"); }
      }
    }
    if (!eq && !strict) { out.add("op.skipped_small_curvature"); return true; }
    if (!eq)
    {
      std::string d = who + ": path is not the library's path from " + sim::show(a) + " to " + sim::show(b) + fmt(" (%zu states, expected %zu)", np, want.size());
      return bad("node-path", d);
    }
    out.add("check.path");
    // covariances
    show_on(cov, *r[3], k);
    std::vector<Shown> cv = visible(cov, r[3]->t + 0.5);
    size_t need = (np + 9) / 10;
    if (cv.size() != need || r[3]->m.markers.markers.size() != need)
      return bad("node-covariances", who + fmt(": %zu ellipsoids shown for %zu states", cv.size(), np));
    double big = 0;
    for (auto &s : want) big = std::max(big, cov3(s).trace());
    for (size_t q = 0; q < need; q++)
    {
      const visualization_msgs::Marker &m = r[3]->m.markers.markers[q];
      const State_With_Covariance &s = want[q * 10];
      const geometry_msgs::Quaternion &o = m.pose.orientation;
      Eigen::Quaterniond qd(o.w, o.x, o.y, o.z);
      bool ok = near(m.pose.position.x, s.state.x, tol) && near(m.pose.position.y, s.state.y, tol) && std::fabs(qd.norm() - 1) < 1e-6 &&
                m.type == visualization_msgs::Marker::SPHERE;
      if (ok)
      {
        M3 R = qd.toRotationMatrix();
        M3 D = M3::Zero();
        D(0, 0) = m.scale.x * m.scale.x / 36;
        D(1, 1) = m.scale.y * m.scale.y / 36;
        D(2, 2) = m.scale.z * m.scale.z / 36;
        M3 C = R * D * R.transpose(), W = cov3(s);
        ok = (C - W).cwiseAbs().maxCoeff() <= (i == 0 || i == 7 ? 0.2 : 1e-3) * W.trace() + 1e-6 * big;
        if (!ok) return bad("node-covariances", who + fmt(": ellipsoid of state %zu shows covariance %.6g %.6g %.6g (trace %.6g), expected %.6g %.6g %.6g", q * 10, C(0, 0), C(1, 1), C(2, 2), C.trace(), W(0, 0), W(1, 1), W(2, 2)));
      }
      if (!ok) return bad("node-covariances", who + fmt(": ellipsoid %zu is not at its state", q));
    }
    out.add("check.covariances");
    // swath
    std::vector<geometry_msgs::Point> wheel(4);
    wheel[0].x = wr; wheel[0].y = ww / 2;
    wheel[1].x = -wr; wheel[1].y = ww / 2;
    wheel[2].x = -wr; wheel[2].y = -ww / 2;
    wheel[3].x = wr; wheel[3].y = -ww / 2;
    for (size_t q = 0; q < np; q++)
    {
      const State &s = want[q].state;
      if (!polygon(chassis->points, q * nf * 2, wd.foot, s.x, s.y, s.theta, 1e-3 + 10 * tol)) return bad("node-swath", who + fmt(": chassis of state %zu is not the footprint there", q));
      for (int side = 0; side < 2; side++)
      {
        double y = side == 0 ? tw / 2 : -tw / 2;
        double an = std::fabs(s.kappa) > 1e-4 ? std::atan(wb / (1 / s.kappa - y)) : 0;
        std::vector<geometry_msgs::Point> at_wheel;
        costmap_2d::transformFootprint(wb, y, an, wheel, at_wheel);
        if (!polygon(wheels->points, q * 16 + 8 * side, at_wheel, s.x, s.y, s.theta, 2e-3 + 10 * tol))
          return bad("node-swath", who + fmt(": %s front wheel of state %zu (kappa %.6g) is drawn wrongly", side ? "right" : "left", q, s.kappa));
      }
    }
    out.add("check.swath");
    return true;
  }
  void run()
  {
    std::vector<const Rec *> per[5];
    for (auto &r : wd.rec)
    {
      per[r.topic].push_back(&r);
      if (!r.had_sub)
      {
        out.viol("node-publishes-unheard", fmt("t=%.3f: publishes on visualization_%s, which has not had any subscriber", r.t, TOPICS[r.topic]));
        return;
      }
    }
    size_t K = 1e9;
    for (auto &p : per) K = std::min(K, p.size());
    for (auto &p : per)
      if (p.size() > K + 1)
      {
        out.viol("node-mixed-display", fmt("topics carry %zu %zu %zu %zu %zu messages", per[0].size(), per[1].size(), per[2].size(), per[3].size(), per[4].size()));
        return;
      }
    for (size_t k = 0; k < K; k++)
    {
      const Rec *r[5] = { per[0][k], per[1][k], per[2][k], per[3][k], per[4][k] };
      for (int q = 0; q < 5; q++)
        if (k > 0 && r[q]->t - per[q][k - 1]->t < 2 - 1e-6)
        {
          out.viol("node-too-short", fmt("display %zu is replaced on visualization_%s after %.6f s", k - 1, TOPICS[q], r[q]->t - per[q][k - 1]->t));
          return;
        }
      if (!display((int)k, r)) return;
      out.add("check.display");
    }
  }
};
void progress(World &wd, Out &out, bool returned, double ended)
{
  const double LIMIT = 10 + wd.stalled + 40 * wd.late_max + 3000 * wd.cost, EXIT = 30 + wd.stalled + 40 * wd.late_max + 3000 * wd.cost;
  double end = std::min(ended, wd.shut);
  if (returned && ended < wd.shut) return out.viol("node-ends", fmt("the node ends at t=%.3f without having been told to", ended));
  // times at which every topic has a subscriber
  std::vector<double> cuts = { 0, end };
  for (auto &t : wd.top)
    for (auto &s : t.subs) { cuts.push_back(s.from); cuts.push_back(s.to); }
  std::sort(cuts.begin(), cuts.end());
  auto all = [&](double a, double b) {
    for (auto &t : wd.top)
    {
      bool any = false;
      for (auto &s : t.subs) any = any || (s.from <= a && s.to >= b);
      if (!any) return false;
    }
    return true;
  };
  double begin = -1;
  std::vector<std::pair<double, double>> good;
  for (size_t i = 0; i + 1 < cuts.size(); i++)
  {
    double a = cuts[i], b = std::min(cuts[i + 1], end);
    if (b <= a) continue;
    bool g = all(a, b);
    if (g && begin < 0) begin = a;
    if (!g && begin >= 0) { good.push_back({ begin, a }); begin = -1; }
  }
  if (begin >= 0) good.push_back({ begin, end });
  for (auto &g : good)
    for (int q = 0; q < 5; q++)
    {
      double last = g.first;
      auto gap = [&](double to) {
        out.mx("seconds_to_next_display", to - last);
        if (to - last <= LIMIT) return false;
        out.viol("node-no-progress", fmt("all topics have subscribers from t=%.3f to %.3f, but nothing is published on visualization_%s between t=%.3f and %.3f",
                                         g.first, g.second, TOPICS[q], last, to));
        return true;
      };
      for (auto &r : wd.rec)
        if (r.topic == q && r.t > g.first && r.t <= g.second)
        {
          if (gap(r.t)) return;
          last = r.t;
        }
      if (gap(g.second)) return;
      out.add("check.progress");
    }
  if (wd.shut < 1e17 && (ended > wd.shut || !returned))
  {
    if (!returned && ended >= wd.shut + EXIT)
      return out.viol("node-no-exit", fmt("told to shut down at t=%.3f (last ROS call %c, %d displays so far), still running at t=%.3f", wd.shut, wd.last_call,
                                          wd.displays, ended));
    if (returned)
    {
      out.mx("seconds_to_exit", ended - wd.shut);
      if (ended > wd.shut + EXIT) return out.viol("node-no-exit", fmt("told to shut down at t=%.3f, ends at t=%.3f", wd.shut, ended));
      out.add("check.exit");
    }
  }
}
}  // namespace

Plan gen(const std::string &prop, Rng &r, uint64_t idx)
{
  int pn = atoi(prop.c_str() + 1);
  Plan p;
  p.push_back(fmt("clock %.9g", 1.2e9 + r.u(0, 6e8)));
  p.push_back(fmt("cost %.9g", r.logu(1e-6, 2e-3)));
  if (r.p(0.4)) p.push_back(fmt("late %d %.9g", 1 + r.below(1000000), r.logu(1e-4, 0.02)));
  p.push_back(fmt("cut %d", r.below(2)));
  double miss = r.p(0.3) ? 0 : r.p(0.2) ? 1 : 0.4;
  auto par = [&](const char *n, double v, bool needed = false) {
    if (needed || !r.p(miss)) p.push_back(fmt("param %s %.17g", n, v));
  };
  double k = r.p(0.3) ? 0.2 : r.logu(0.1, 1.5);
  par("kappa_max", k);
  par("sigma_max", r.p(0.3) ? 0.2 : k * k / (2 * r.logu(0.05, 1.5)));
  const char *al[4] = { "motion_noise/alpha1", "motion_noise/alpha2", "motion_noise/alpha3", "motion_noise/alpha4" };
  for (auto n : al) par(n, r.p(0.2) ? 0 : r.logu(1e-3, 0.5));
  par("measurement_noise/std_x", r.logu(0.01, 0.5));
  par("measurement_noise/std_y", r.logu(0.01, 0.5));
  par("measurement_noise/std_theta", r.logu(0.005, 0.2));
  par("controller/k1", r.u(0.1, 2));
  par("controller/k2", r.u(0.1, 2));
  par("controller/k3", r.u(0.1, 2));
  par("wheel_base", r.u(0.5, 4), true);
  par("track_width", r.u(0.3, 2), true);
  par("wheel_radius", r.u(0.1, 0.5), true);
  par("wheel_width", r.u(0.05, 0.4), true);
  int nf = 3 + r.below(10);
  if (nf == 8) nf = 9;  // so that chassis and wheels differ in size
  p.push_back(fmt("footprint %d %.9g %.9g", nf, r.u(0.5, 4), r.u(0.3, 1.5)));
  double end = 12 + r.u(0, pn == 11 ? 70 : 90);
  // subscribers
  int mode = r.below(4);  // 0: viewer before the node, 1: viewer arrives late, 2: topics one by one, 3: come and go
  double t0 = mode == 0 ? 0 : r.u(0, 8);
  for (int q = 0; q < 5; q++)
  {
    double t = mode >= 2 ? r.u(0, 9) : t0;
    double lat = r.p(0.3) ? 0 : r.logu(1e-4, 0.4);
    if (pn == 12 && r.p(0.06)) continue;  // never
    p.push_back(fmt("sub %.9g %s %.9g", t, TOPICS[q], lat));
    if (mode == 3)
    {
      int n = r.below(3);
      for (int j = 0; j < n; j++)
      {
        double gone = t + r.u(0, 20), back = gone + (r.p(0.5) ? r.logu(1e-3, 0.5) : r.u(0, 12));
        p.push_back(fmt("unsub %.9g %s", gone, TOPICS[q]));
        if (pn == 12 && r.p(0.1)) break;
        p.push_back(fmt("sub %.9g %s %.9g", back, TOPICS[q], r.logu(1e-4, 0.4)));
        t = back;
      }
    }
    if (r.p(0.2)) p.push_back(fmt("sub %.9g %s %.9g", r.u(0, end), TOPICS[q], 0.01));
  }
  if (r.p(0.5)) for (int j = 1 + r.below(3); j > 0; j--) p.push_back(fmt("jump %.9g %.9g", r.u(0, end), r.p(0.5) ? r.u(-5, 5) : r.u(-1e6, 1e6)));
  if (r.p(0.4)) for (int j = 1 + r.below(3); j > 0; j--) p.push_back(fmt("stall %.9g %.9g", r.u(0, end), r.logu(0.01, 3)));
  if (r.p(pn == 12 ? 0.8 : 0.3)) p.push_back(fmt("shutdown %.9g", r.p(0.3) ? r.u(0, 10) : r.u(0, end)));
  p.push_back(fmt("end %.9g", end));
  (void)idx;
  return p;
}

void exec(const std::string &prop, const Plan &plan, Out &out)
{
  int pn = atoi(prop.c_str() + 1);
  World wd;
  wd.out = &out;
  w = &wd;
  bool has_foot = false;
  struct SubEv { double t; int op, topic; double lat; };
  std::vector<SubEv> se;
  for (auto &l : plan)
  {
    Words x(l);
    const std::string op = x.s(0);
    if (op == "clock") wd.clock = x.d(1);
    else if (op == "cost") wd.cost = std::max(1e-7, x.d(1));
    else if (op == "late") { wd.late = Rng((uint64_t)x.n(1)); wd.late_max = x.d(2); out.add("fault.late_wakeups"); }
    else if (op == "cut") wd.cut = x.n(1) != 0;
    else if (op == "param") wd.par["/" + x.s(1)] = x.d(2);
    else if (op == "footprint")
    {
      int n = std::max(3, (int)x.n(1));
      for (int i = 0; i < n; i++)
      {
        geometry_msgs::Point q;
        q.x = x.d(2) * (0.4 + std::cos(2 * M_PI * i / n));
        q.y = x.d(3) * std::sin(2 * M_PI * i / n) + 0.01 * i;
        wd.foot.push_back(q);
      }
      has_foot = true;
    }
    else if (op == "sub" || op == "unsub")
    {
      int t = topic_of(NS + x.s(2));
      if (t >= 0) { se.push_back(SubEv{ x.d(1), op == "sub", t, x.d(3) }); out.add(op == "sub" ? "fault.subscriber_arrives" : "fault.subscriber_leaves"); }
    }
    else if (op == "jump" || op == "stall") wd.ev.push_back(Ev{ x.d(1), op, x.d(2) });
    else if (op == "shutdown") { wd.shut = std::min(wd.shut, x.d(1)); }
    else if (op == "end") wd.end = x.d(1);
  }
  if (!has_foot)
    for (int i = 0; i < 3; i++) { geometry_msgs::Point q; q.x = i == 2 ? -1 : 1; q.y = i - 1; wd.foot.push_back(q); }
  for (const char *n : { "/wheel_base", "/track_width", "/wheel_radius", "/wheel_width" })
    if (!wd.par.count(n)) wd.par[n] = n[7] == 'b' ? 2.9 : n[1] == 't' ? 1.5 : n[7] == 'r' ? 0.3 : 0.2;
  double missing = 0;
  for (const char *n : { "/kappa_max", "/sigma_max", "/motion_noise/alpha1", "/motion_noise/alpha2", "/motion_noise/alpha3", "/motion_noise/alpha4",
                         "/measurement_noise/std_x", "/measurement_noise/std_y", "/measurement_noise/std_theta", "/controller/k1", "/controller/k2", "/controller/k3" })
    missing += !wd.par.count(n);
  out.add("fault.missing_parameter", missing);
  if (wd.shut < 1e17) wd.ev.push_back(Ev{ wd.shut, "shutdown", 0 });
  std::stable_sort(se.begin(), se.end(), [](const SubEv &a, const SubEv &b) { return a.t < b.t; });
  for (auto &s : se)
  {
    if (s.op) wd.top[s.topic].subs.push_back(Sub{ s.t, 1e18, s.lat });
    else
      for (auto &x : wd.top[s.topic].subs)
        if (x.to > 1e17) { x.to = s.t; break; }
    wd.ev.push_back(Ev{ s.t, s.op ? "sub" : "unsub", 0 });
  }
  std::stable_sort(wd.ev.begin(), wd.ev.end(), [](const Ev &a, const Ev &b) { return a.t < b.t; });
  double stalls = 0;
  for (auto &e : wd.ev)
    if (e.op == "stall") stalls += e.a;
  if (wd.shut < 1e17) wd.end = wd.shut + 45 + stalls;
  srand(12345);
  dirty_stack(0x5A);
  bool returned = false;
  try
  {
    char name[] = "node";
    char *argv[] = { name, nullptr };
    node_main(1, argv);
    returned = true;
  }
  catch (Stop &) {}
  double ended = wd.t;
  out.simtime = ended;
  out.add("op.ros_calls", (double)wd.calls);
  out.add("op.messages", (double)wd.rec.size());
  out.log.d(ended);
  out.log.raw(returned);
  out.log.raw(wd.calls);
  for (auto &r : wd.rec)
  {
    out.log.d(r.t);
    out.log.raw((uint64_t)r.topic);
    for (auto &q : r.m.path.poses) { out.log.d(q.pose.position.x); out.log.d(q.pose.position.y); }
    for (auto &q : r.m.markers.markers) { out.log.d(q.pose.position.x); out.log.s(q.text); }
  }
  if (pn == 11) Checker(wd, out).run();
  else progress(wd, out, returned, ended);
}
}  // namespace sim

// Mission simulator (C05, C06, C07, C08): a vehicle with its own kinematics (core.hpp, drive) executes what the real
// planners return, while the plan interrupts, displaces and restarts it, turns its heading sensor by full turns, starves
// it of memory, replaces its planner and hands out goals, also on its earlier paths.
//
//   cfg KIND KAPPA SIGMA DISC          planner
//   start X Y THETA KAPPA              vehicle state
//   goal X Y THETA KAPPA               new goal
//   goalrun M L M L M L                goal at the end of up to three turns (M = 1 left, -1 right; 2, -2: elementary) and straight lines (M = 0)
//   goalrel DX DY DTH KAPPA            goal relative to the vehicle (vehicle frame)
//   goalpath I FRAC FLIP DX DTH        goal on the I-th last executed path; FLIP: facing back
//   carpath I FRAC FLIP DX DTH         the same for the vehicle (towed back)
//   wrap N M                           vehicle and goal headings are reported N, M full turns off
//   slip DX DY DTH                     displacement (vehicle frame)
//   reset KIND DISC                    planner process dies, another one (maybe of another type) starts
//   oom N LEN                          allocations N..N+LEN-1 of the next planning call fail; the vehicle retries
//   detour K1 L1 K2 L2                 vehicle drives two arcs (curvature factors in [-1,1], signed lengths), C07
//   go FRAC                            plan to the goal and drive that part of the path
//   frame A X Y M S                    C16: map frame jumps (turned, moved, mirrored, units) before the next go
//   man WORD SIDE DIR S0 S1 S2 P1..P6 A B   C14: the vehicle drives this manoeuvre (A, B: with the steering turned from, to an
//                                      intermediate angle), then the planner is asked for the same trip
//   clock SEED N                       C08: sampling instants for the next go
#include <algorithm>
#include "core.hpp"

namespace sim
{
namespace
{
struct Seg
{
  double s0, x, y, th, k, sig, d, len;
};
struct Curve  // the one curve a list of controls describes
{
  std::vector<Seg> seg;
  double L = 0;
  double slack = 0;  // the library treats |sigma| and curvature differences below 1e-4 as zero: resulting deviation
  State end;
  Curve() {}
  Curve(const State &a, const Controls &c)
  {
    double x = a.x, y = a.y, th = a.theta;
    double total = length(c), ek = 0, kprev = 0;
    bool first = true;
    end = a;
    for (auto &u : c)
    {
      double len = std::fabs(u.delta_s);
      Seg g{ L, x, y, th, u.kappa, u.sigma, u.delta_s < 0 ? -1.0 : 1.0, len };
      seg.push_back(g);
      double k = u.kappa;
      drive(x, y, th, k, u.sigma, g.d, len);
      L += len;
      double jump = first ? 0 : std::fabs(u.kappa - kprev);
      ek = jump > 1.5e-4 ? 0 : ek + jump;  // larger jumps are taken over, smaller ones carried along
      slack += ek * len * (len + (total - L));
      if (std::fabs(u.sigma) < 2e-4)
      {
        slack += 0.5 * std::fabs(u.sigma) * len * len * (len + (total - L));
        ek += std::fabs(u.sigma) * len;
      }
      kprev = k;
      first = false;
      end.kappa = k;
      end.d = g.d;
    }
    end.x = x;
    end.y = y;
    end.theta = th;
  }
  int at(double s) const
  {
    int i = 0;
    while (i + 1 < (int)seg.size() && (s > seg[i].s0 + seg[i].len || seg[i].len == 0)) ++i;
    return i;
  }
  State point(int i, double s) const
  {
    const Seg &g = seg[i];
    State r;
    r.x = g.x; r.y = g.y; r.theta = g.th; r.kappa = g.k; r.d = g.d;
    double ds = std::min(std::max(s - g.s0, 0.0), g.len);
    drive(r.x, r.y, r.theta, r.kappa, g.sig, g.d, ds);
    return r;
  }
  State point(double s) const { return point(at(s), s); }
};

const int PROP_GOAL = 5, PROP_LIMIT = 6, PROP_DIST = 7, PROP_SAMPLE = 8, PROP_SAME = 16, PROP_FREE = 17, PROP_BEST = 14;
int prop_no(const std::string &p) { return atoi(p.c_str() + 1); }

struct Mission
{
  Out &out;
  int prop;
  int kind = 0;
  Params par;
  std::unique_ptr<Space> sp;
  State car, goal;
  std::vector<Curve> past;
  uint64_t oom_n = 0, oom_len = 0;
  uint64_t clock_seed = 0;
  int clock_n = 0;
  // C07: what was announced and what has been driven since
  bool leg = false;       // a leg towards `goal` is under way, undisturbed
  State leg_from;
  double announced = 0, driven = 0;
  bool on_path = true;
  bool fr = false, fr_m = false;  // C16: frame jump
  double fr_a = 0, fr_x = 0, fr_y = 0, fr_s = 1;
  bool moving_handover = false;  // the last go stopped in the middle

  Mission(Out &o, int p) : out(o), prop(p) {}
  void rebuild() { sp.reset(); sp = make_space(kind, par, false); }
  double tol_pos(double L) const { return 0.012 + 2e-4 * L; }

  static State flipped(State s, bool f)
  {
    if (f) { s.theta += M_PI; s.kappa = -s.kappa; }
    return s;
  }
  State on_past(long i, double frac, bool flip, double dx, double dth) const
  {
    if (past.empty()) return car;
    const Curve &c = past[past.size() - 1 - (size_t)(i % (long)past.size())];
    State s = flipped(c.point(frac * c.L), flip);
    s.x += dx * std::cos(s.theta);
    s.y += dx * std::sin(s.theta);
    s.theta += dth;
    return clampk(s);
  }
  State clampk(State s) const
  {
    s.kappa = std::max(-par.kappa, std::min(par.kappa, s.kappa));
    s.d = 0;
    return s;
  }
  void shift(State &s, double dx, double dy, double dth) const
  {
    double c = std::cos(s.theta), n = std::sin(s.theta);
    s.x += c * dx - n * dy;
    s.y += n * dx + c * dy;
    s.theta += dth;
  }
  std::string where(const State &a, const State &b, const Controls &c) const
  {
    return fmt("%s kappa_max=%.9g sigma_max=%.9g disc=%.9g from %s to %s: controls %s", kname[kind], par.kappa, par.sigma,
               par.disc, show(a).c_str(), show(b).c_str(), show(c).c_str());
  }
  void viol(const char *c, const std::string &d) { out.viol(c, d); }

  // planning under the allocation faults of the plan
  template <class F>
  bool guarded(F f)
  {
    if (oom_n)
    {
      bool hit = false;
      g_alloc.arm(oom_n, oom_len);
      try { f(); }
      catch (std::bad_alloc &) { g_alloc.disarm(); hit = true; }
      g_alloc.disarm();
      if (hit) out.add("fault.oom");
      oom_n = 0;
    }
    f();
    return true;
  }

  // ---------------------------------------------------------------- oracles
  double rule_error(int rule, double got, double want) const
  {
    if (rule == 0) return std::fabs(got);
    if (rule == 2) return std::fabs(got - want);
    if (rule == 1)
    {
      if (want > 1e-9) return std::fabs(got - par.kappa);
      if (want < -1e-9) return std::fabs(got + par.kappa);
      return std::fabs(std::fabs(got) - par.kappa);
    }
    return 0;
  }
  // The library takes lengths below 1e-4 for zero. Where circles are tangent within this, that shifts the end by up to the square root of it
  // (0.01 m); a goal a little further away, outside of this strip, is reached precisely.
  bool resolution_strip(const State &a, const State &b)
  {
    out.add("check.strip");
    for (int i = 0; i < 16; i++)
    {
      State q = b;
      double w = (i < 8 ? 3e-4 : 6e-4), f = i * 0.7853981633974483;
      q.x += w * std::cos(f);
      q.y += w * std::sin(f);
      q.theta += (i % 3 - 1) * w;
      Controls c = sp->controls(a, q);
      if (c.empty()) continue;
      Curve v(a, c);
      if (std::hypot(v.end.x - q.x, v.end.y - q.y) <= 1e-3 + 1.1e-4 * v.L) return true;
    }
    return false;
  }
  void check_goal(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    double e = std::hypot(cv.end.x - b.x, cv.end.y - b.y), et = ang(cv.end.theta - b.theta);
    out.add("check.arrival");
    out.mx("goal_error_m", std::isfinite(e) ? e : 1e9);
    out.mx("goal_error_rad", std::isfinite(et) ? et : 1e9);
    if (!(e <= tol_pos(cv.L)))
      return viol("goal-missed", fmt("misses the goal by %.6g m; ", e) + where(a, b, c));
    if (!(e <= 1e-3 + 1.1e-4 * cv.L) && (cv.L < 1e-3 || !resolution_strip(a, b)))
      return viol("goal-missed", fmt("misses the goal by %.6g m, as it does goals 0.3 mm beside; ", e) + where(a, b, c));
    if (!(et <= 1e-3))
      return viol("goal-heading", fmt("arrives %.6g rad off; ", et) + where(a, b, c));
    // curvature on arrival
    double kt = 2e-3 * (1 + par.kappa);
    if (is_plain(kind)) return;
    if (cv.L < 1e-4)
    {
      if (is_cc(kind) && end_rule(kind) == 2 && std::fabs(a.kappa - b.kappa) > kt)
        viol("goal-curvature", fmt("stays with curvature %.6g, %.6g wanted; ", a.kappa, b.kappa) + where(a, b, c));
      return;
    }
    double k1 = 0;
    bool have = false, zero_last = false;
    for (auto &g : cv.seg)
    {
      bool z = g.len < 1e-4;
      if (is_cc(kind) && g.len <= 1e-6) continue;
      k1 = g.k + g.sig * g.len;
      have = true;
      zero_last = z;
    }
    if (!have || (is_hc(kind) && zero_last)) return;
    double ke = rule_error(end_rule(kind), k1, b.kappa);
    out.mx("goal_error_curvature", ke);
    if (!(ke <= kt))
      viol("goal-curvature", fmt("arrives with curvature %.6g; ", k1) + where(a, b, c));
  }
  void check_limits(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    out.add("check.limits");
    const double K = par.kappa;
    bool first = true;
    double kprev = 0, dprev = 0, lprev = 0;
    for (auto &g : cv.seg)
    {
      double ke = g.k + g.sig * g.len;
      if (!(std::fabs(g.k) <= K * (1 + (g.sig == 0 ? 1e-6 : 1e-4)) + 1e-6) || !(std::fabs(ke) <= K * (1 + 1e-4) + 1e-5))
        return viol("curvature-limit", fmt("curvature %.9g to %.9g exceeds %.9g; ", g.k, ke, K) + where(a, b, c));
      if (!(std::fabs(g.sig) <= (is_plain(kind) ? 0 : par.sigma * (1 + 1e-3)) + 1e-9))
        return viol("sharpness-limit", fmt("sharpness %.9g exceeds %.9g; ", g.sig, par.sigma) + where(a, b, c));
      if (g.len > 1e-6)
      {
        if (is_oneway(kind) && g.d * way(kind) < 0)
          return viol("direction", fmt("drives %.6g m against its direction; ", g.len) + where(a, b, c));
        if (!is_plain(kind))
        {
          double jump = first ? 0 : std::fabs(g.k - kprev);
          bool stop = is_hc(kind) && (first || dprev * g.d < 0 || lprev < 1e-4 || g.len < 1e-4);
          if (is_plain(kind) == false && jump > 1e-3 * (1 + K) && !stop)
            return viol("curvature-jump", fmt("curvature jumps from %.6g to %.6g; ", kprev, g.k) + where(a, b, c));
          if (first)
          {
            double e0 = rule_error(start_rule(kind), g.k, a.kappa);
            if (is_cc(kind) && e0 > 2e-3 * (1 + K))
              return viol("start-curvature", fmt("starts with curvature %.6g; ", g.k) + where(a, b, c));
          }
        }
        first = false;
        dprev = g.d;
      }
      if (is_cc(kind) && g.len <= 1e-6) continue;
      kprev = ke;
      lprev = g.len;
    }
    if (is_hc(kind) && cv.L > 1e-4 && cv.seg[0].len >= 1e-4)
    {
      double e0 = rule_error(start_rule(kind), cv.seg[0].k, a.kappa);
      if (e0 > 2e-3 * (1 + K))
        viol("start-curvature", fmt("starts with curvature %.6g; ", cv.seg[0].k) + where(a, b, c));
    }
  }
  // smallest distance announced for states next to a (distances of Dubins type jump)
  double near_distance(const Space &s, const State &a, const State &b, double h)
  {
    double m = 1e300;
    static const double v[3] = { 0, 1, -1 };
    for (int q = 0; q < 2; q++)
      for (int i = 0; i < 27; i++)
      {
        State p = a, r = b;
        State &z = q ? p : r;
        shift(z, h * v[i % 3], h * v[i / 3 % 3], 0);
        z.theta += h * v[i / 9];
        m = std::min(m, s.distance(p, r));
      }
    return m;
  }
  double lenient(const State &a, const State &b)
  {
    Params q = par;
    q.kappa *= 1 + 1e-3;
    std::unique_ptr<Space> ref = make_space(kind, q);
    double m = near_distance(*ref, a, b, 1e-6);
    for (double h : { 1e-5, 3e-6, 1e-6, 1e-7 }) m = std::min(m, near_distance(*sp, a, b, h));
    return m;
  }
  void check_distance(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    double d = 0;
    guarded([&] { d = sp->distance(a, b); });
    out.log.d(d);
    double diff = std::fabs(d - cv.L);
    out.add("check.distance");
    out.mx(std::string("length_difference_m.") + (is_plain(kind) ? "plain" : end_rule(kind) == 2 ? "exact" : "rest"),
           std::isfinite(diff) ? diff : 1e9);
    double tol = is_plain(kind) ? 1e-6 * (1 + cv.L) : 6e-3 + 1e-4 * cv.L;
    if (!(diff <= tol))
      return viol("distance", fmt("announces %.9g m, drives %.9g m; ", d, cv.L) + where(a, b, c));
    // never below the shortest unconstrained path to the pose reached
    if (!is_plain(kind))
    {
      Params q = par;
      std::unique_ptr<Space> ref = make_space(is_oneway(kind) ? (way(kind) > 0 ? 10 : 11) : 18, q);
      double lb = ref->distance(a, cv.end);
      if (!(cv.L >= lb - 1e-3 * (1 + cv.L / 50)))
      {
        lb = near_distance(*ref, a, cv.end, 2e-4);
        q.kappa *= 1 + 1e-3;
        ref = make_space(is_oneway(kind) ? (way(kind) > 0 ? 10 : 11) : 18, q);
        lb = std::min(lb, near_distance(*ref, a, cv.end, 1e-6));
        if (!(cv.L >= lb - 2e-3 * (1 + cv.L / 50) - 3e-3))
          return viol("too-short", fmt("%.9g m, but the shortest path is %.9g m; ", cv.L, lb) + where(a, b, c));
      }
      else out.mx("lower_bound_ratio", cv.L > 0.1 ? lb / cv.L : 0);
      out.add("check.lower_bound");
      return;
    }
    if (leg)
    {
      double total = driven + d;
      out.add(on_path ? "check.replan_on_path" : "check.replan_off_path");
      const double t = 1e-5 * (1 + total);
      if (!(total >= announced - t))
      {
        double m = lenient(leg_from, b);
        leg = false;
        if (!(total >= m - 1e-3 * (1 + total)))
          return viol("replan-gains", fmt("%.9g m announced from %s, but %.9g m driven and %.9g m to go; ", announced,
                                          show(leg_from).c_str(), driven, d) + where(a, b, c));
      }
      if (on_path && !(total <= announced + t))
      {
        double m = lenient(a, b);
        leg = false;
        if (!(driven + m <= announced + 1e-3 * (1 + total)))
          return viol("replan-loses", fmt("%.9g m announced from %s, but after %.9g m %.9g m to go; ", announced,
                                          show(leg_from).c_str(), driven, d) + where(a, b, c));
      }
    }
    if (!leg)
    {
      leg = true;
      leg_from = a;
      announced = d;
      driven = 0;
      on_path = true;
    }
  }

  // distances announced for states around a, b
  void range(const Space &s, const State &a, const State &b, double h, double &lo, double &hi, int n = 60)
  {
    Rng r(99);
    for (int i = 0; i < n; i++)
    {
      State p = a, q = b;
      shift(p, h * r.u(-1, 1), h * r.u(-1, 1), h * r.u(-1, 1));
      shift(q, h * r.u(-1, 1), h * r.u(-1, 1), h * r.u(-1, 1));
      if (r.p(0.5)) p.kappa = std::max(-par.kappa, std::min(par.kappa, p.kappa + h * r.u(-1, 1)));
      if (r.p(0.5)) q.kappa = std::max(-par.kappa, std::min(par.kappa, q.kappa + h * r.u(-1, 1)));
      double d = s.distance(p, q);
      lo = std::min(lo, d);
      hi = std::max(hi, d);
    }
  }
  bool stable(const Space &s, const State &a, const State &b, double tol, double &v)
  {
    double lo = HUGE_VAL, hi = -HUGE_VAL;
    // few around at first; thin wedges with another distance are not rounding, though: look closely before deciding
    for (int n : { 60, 1000 })
      for (double h : { 1e-9, 1e-8, 1e-7, 1e-6, 1e-5 })
      {
        range(s, a, b, h, lo, hi, n);
        if (!(hi - lo <= tol)) return false;
      }
    v = lo;
    return true;
  }
  // d: announced by sp from a to b; e * unit: announced by o from a2 to b2, which is the same mission
  bool equivalent(double d, double e, double unit, const Space &o, const State &a, const State &b, const State &a2, const State &b2, double L,
                  const char *what)
  {
    double diff = std::fabs(d - e * unit);
    double tol = is_plain(kind) ? 1e-6 * (1 + L) : 6e-3 + 1e-4 * L;
    if (unit != 1 && !is_plain(kind)) tol *= 1 + unit;
    if (diff <= tol) { out.mx(std::string("difference_m.") + what + (is_plain(kind) ? ".plain" : ".other"), diff); return true; }
    // where all missions around have one and the same distance in one of the frames, it is that of the mission in both
    double v;
    if (unit == 1 && what[0] != 'w' && (stable(*sp, a, b, tol, v) || stable(o, a2, b2, tol, v)) && (std::fabs(d - v) > 2 * tol || std::fabs(e - v) > 2 * tol))
      return false;
    double dl = d, dh = d, el = e, eh = e;
    for (double h : { 1e-7, 1e-5, 1e-4, 1e-3 })
    {
      range(*sp, a, b, h, dl, dh);
      range(o, a2, b2, h, el, eh);
      if (dl <= eh * unit + tol + 10 * h && el * unit <= dh + tol + 10 * h) { out.add(std::string("op.discontinuity.") + what); return true; }
    }
    return false;
  }
  State framed(const State &s) const
  {
    State r = s;
    double x = s.x, y = fr_m ? -s.y : s.y, th = fr_m ? -s.theta : s.theta;
    r.kappa = (fr_m ? -s.kappa : s.kappa) / fr_s;
    x *= fr_s;
    y *= fr_s;
    r.x = fr_x + std::cos(fr_a) * x - std::sin(fr_a) * y;
    r.y = fr_y + std::sin(fr_a) * x + std::cos(fr_a) * y;
    r.theta = th + fr_a;
    return r;
  }
  void check_equivalent(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    double d = 0, e = 0;
    guarded([&] { d = sp->distance(a, b); });
    out.log.d(d);
    // the way back, by the planner that drives the other way round
    static const int partner[NK] = { 1, 0, 3, 2, 7, 6, 5, 4, 9, 8, 11, 10, 12, 13, 14, 16, 15, 17, 18 };
    {
      std::unique_ptr<Space> back = make_space(partner[kind], par);
      guarded([&] { e = back->distance(b, a); });
      out.log.d(e);
      out.add("check.way_back");
      if (!equivalent(d, e, 1, *back, a, b, b, a, cv.L, "way_back"))
        return viol("way-back", fmt("%.9g m there, %.9g m back; ", d, e) + where(a, b, c));
    }
    if (!fr) return;
    fr = false;
    Params q = par;
    q.kappa = par.kappa / fr_s;
    q.sigma = par.sigma / (fr_s * fr_s);
    std::unique_ptr<Space> o = make_space(kind, q);
    State a2 = framed(a), b2 = framed(b);
    a2.kappa = std::max(-q.kappa, std::min(q.kappa, a2.kappa));
    b2.kappa = std::max(-q.kappa, std::min(q.kappa, b2.kappa));
    guarded([&] { e = o->distance(a2, b2); });
    out.log.d(e);
    out.add(fr_m ? "check.mirror" : fr_s != 1 ? "check.units" : "check.frame");
    out.add("fault.frame_jump");
    if (!equivalent(d, e, 1 / fr_s, *o, a, b, a2, b2, cv.L, fr_m ? "mirror" : fr_s != 1 ? "units" : "frame"))
      return viol(fr_m ? "mirror" : fr_s != 1 ? "units" : "frame",
                  fmt("%.9g m, but %.9g m when turned by %.6g, moved by (%.6g %.6g)%s and in units of 1/%.6g m; ", d, e / fr_s, fr_a, fr_x, fr_y,
                      fr_m ? ", mirrored" : "", fr_s) + where(a, b, c));
  }

  // the planner with more freedom (distance d from a to b) must not be longer than the one with less
  bool shorter(double d, const Space &more, const State &a, const State &b, const Space &less, double &e, double tol, const char *what, double h0 = 0)
  {
    guarded([&] { e = less.distance(a, b); });
    out.log.d(e);
    out.add(std::string("check.") + what);
    if (d <= e + tol) return true;
    double dl = d, dh = d, el = e, eh = e;
    for (double h : { 1e-7, 1e-5, 1e-4, 1e-3, h0 })
    {
      if (h == 0) continue;
      range(more, a, b, h, dl, dh);
      range(less, a, b, h, el, eh);
      if (dl <= eh + tol + 10 * h) { out.add(std::string("op.discontinuity.") + what); return true; }
    }
    return false;
  }
  void check_freedom(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    double d = 0, e = 0;
    guarded([&] { d = sp->distance(a, b); });
    out.log.d(d);
    double tol = 6e-3 + 2e-4 * cv.L;
    auto zero = [](const State &s) { return s.kappa == 0; };
    auto full = [&](const State &s) { return std::fabs(std::fabs(s.kappa) - par.kappa) < 1e-9; };
    // one direction of travel, or another type for the same end points
    std::vector<int> less;
    switch (kind)
    {
      case 0: case 1:
        if (zero(a) && zero(b)) less = { 2 + kind };
        if (zero(a) && full(b)) less = { 4 + kind };
        if (full(a) && zero(b)) less = { 6 + kind };
        if (full(a) && full(b)) less = { 8 + kind };
        break;
      case 12: case 14: less = { 2, 3 }; break;
      case 15: less = { 4, 5 }; break;
      case 16: less = { 6, 7 }; break;
      case 17:  // with the signs of both curvatures prescribed, CCpmpm has families that HCpmpm has not
        if (zero(a) && zero(b)) less = { 8, 9 };
        break;
      case 18: less = { 10, 11 }; break;
      case 13:
        if (!full(a) || !full(b)) less = { 0, 1 };
        if (zero(a) && zero(b)) less.push_back(14);
        if (zero(a) && full(b)) less.push_back(15);
        if (full(a) && zero(b)) less.push_back(16);
        if (full(a) && full(b)) less.push_back(17);
        break;
      default: break;
    }
    for (int k : less)
    {
      std::unique_ptr<Space> o = make_space(k, par);
      if (!shorter(d, *sp, a, b, *o, e, tol, "freer_type"))
        return viol("freer-type", fmt("%.9g m, but %s finds %.9g m; ", d, kname[k], e) + where(a, b, c));
    }
    if (kind == 0 || kind == 1 || kind == 13)
    {  // the steering may be turned to zero or the limit first (last), the special type plans the rest
      Hash h;
      h.d(a.x); h.d(b.x); h.d(a.kappa); h.d(b.kappa);
      Rng r(h.h);
      State p = a, q = b;
      double extra = 0;
      bool mid = false;
      for (int i = 0; i < 2; i++)
      {
        State &z = i ? q : p;
        double sg = z.kappa < 0 ? -1 : 1, f = std::fabs(z.kappa) / par.kappa, dir = is_oneway(kind) ? (i ? -way(kind) : way(kind)) : r.p(0.5) ? 1 : -1;
        bool to_zero = r.p(0.5);
        if (zero(z) || full(z)) continue;
        if (f < 0.01 || f > 0.99) { mid = false; break; }
        double len = (to_zero ? f : 1 - f) * par.kappa / par.sigma, k = z.kappa;
        drive(z.x, z.y, z.theta, k, (to_zero ? -sg : sg) * par.sigma, dir, len);
        z.kappa = to_zero ? 0 : sg * par.kappa;
        extra += len;
        mid = true;
      }
      bool ends = (zero(p) || full(p)) && (zero(q) || full(q));
      if (mid && ends)
      {
        int k = kind == 13 ? 14 + (full(p) ? 2 : 0) + (full(q) ? 1 : 0) : 2 + (full(p) ? 4 : 0) + (full(q) ? 2 : 0) + kind;
        std::unique_ptr<Space> o = make_space(k, par);
        guarded([&] { e = o->distance(p, q); });
        out.log.d(e);
        out.add("check.steering_first");
        if (!(d <= e + extra + tol))
        {
          double dl = d, dh = d, el = e, eh = e;
          bool ok = false;
          for (double hh : { 1e-7, 1e-5, 1e-4, 1e-3 })
          {
            range(*sp, a, b, hh, dl, dh);
            range(*o, p, q, hh, el, eh);
            if (dl <= eh + extra + tol + 10 * hh) { out.add("op.discontinuity.steering_first"); ok = true; break; }
          }
          if (!ok)
            return viol("steering-first", fmt("%.9g m, but turning the steering for %.9g m and planning the rest with %s takes %.9g m; ", d, extra,
                                              kname[k], e + extra) + where(a, b, c));
        }
      }
    }
    if (is_plain(kind))
    {
      Params q = par;
      q.kappa = par.kappa * 0.7;
      std::unique_ptr<Space> o = make_space(kind, q);
      if (!shorter(d, *sp, a, b, *o, e, 1e-6 * (1 + cv.L), "larger_curvature"))
        return viol("larger-curvature", fmt("%.9g m, but %.9g m with a curvature limit of %.9g; ", d, e, q.kappa) + where(a, b, c));
      return;
    }
    // a steering actuator that is fast enough makes no difference
    Params q = par;
    q.sigma = 1000 * par.kappa * par.kappa;
    State a2 = a, b2 = b;
    a2.kappa = b2.kappa = 0;
    std::unique_ptr<Space> fast = make_space(kind, q), ref = make_space(is_oneway(kind) ? 10 + kind % 2 : 18, par);
    guarded([&] { d = fast->distance(a2, b2); });
    double unit = 1 / par.kappa;
    tol = 0.01 * unit + 1e-3 * cv.L;
    out.log.d(d);
    if (!shorter(d, *fast, a2, b2, *ref, e, tol, "fast_steering", 0.003 * unit))
      return viol("fast-steering", fmt("%.9g m with sharpness %.6g, but %s finds %.9g m; ", d, q.sigma, kname[is_oneway(kind) ? 10 + kind % 2 : 18], e) + where(a, b, c));
  }

  // ---------------------------------------------------------------- C14
  // A driver's manoeuvre: a word of turns T and straight lines S, joined smoothly or at cusps c. Turns have the angles, lines
  // the lengths (in 1/kappa) of `p`; at the limits of curvature and sharpness. Empty if it can not be driven as described.
  struct Turning { double r, mu, dm, xc, yc; bool ok; };
  Turning turning() const
  {
    Turning g;
    double x = 0, y = 0, th = 0, k = 0;
    drive(x, y, th, k, par.sigma, 1, par.kappa / par.sigma);
    g.dm = th;
    g.xc = x - std::sin(th) / par.kappa;
    g.yc = y + std::cos(th) / par.kappa;
    g.r = std::hypot(g.xc, g.yc);
    g.mu = std::atan2(std::fabs(g.xc), std::fabs(g.yc));
    g.ok = g.xc > 0 && g.yc > 0;
    return g;
  }
  static void piece(Controls &c, double dir, double side, double len, double k, double s)
  {
    Control u;
    u.delta_s = dir * len;
    u.kappa = side * k;
    u.sigma = side * s;
    c.push_back(u);
  }
  // one turn by the angle delta (raised to what is possible); in0, out0: begins, ends with curvature 0, otherwise with the limit
  void add_turn(Controls &c, const Turning &g, bool in0, bool out0, double side, double dir, double &delta) const
  {
    const double ka = par.kappa, si = par.sigma, l = ka / si;
    delta = std::max(delta, 0.02);
    if (in0 && out0)
    {
      if (g.ok && delta < 2 * g.dm && delta < 4.5)
      {  // two symmetric clothoids
        double h = std::sqrt(delta), x = 0, y = 0, th = 0, k = 0;
        drive(x, y, th, k, 1, 1, h);
        drive(x, y, th, k, -1, 1, h);
        double s0 = std::pow(std::hypot(x, y) / (2 * g.r * std::sin(delta / 2 + g.mu)), 2), len = std::sqrt(delta / s0);
        if (s0 <= si * (1 + 1e-9) && s0 * len <= ka)
        {
          piece(c, dir, side, len, 0, s0);
          piece(c, dir, side, len, s0 * len, -s0);
          return;
        }
      }
      delta = std::max(delta, 2 * g.dm + 0.02);
    }
    else if (in0 || out0) delta = std::max(delta, g.dm + 0.02);
    double arc = delta - (in0 ? g.dm : 0) - (out0 ? g.dm : 0);
    if (in0) piece(c, dir, side, l, 0, si);
    piece(c, dir, side, arc / ka, ka, 0);
    if (out0) piece(c, dir, side, l, ka, -si);
  }
  static bool own_word(int kind, const std::string &w, bool zero_ends)
  {
    if (w.empty() || w.size() > 11) return false;
    if (is_plain(kind))
    {
      if (w == "T" && kind != 18) return false;  // goals exactly on the turning circle, the distance jumps there
      for (size_t i = 0; i < w.size(); i++)
        if (!(w[i] == 'T' || w[i] == 'S' || (w[i] == 'c' && kind == 18 && i && i + 1 < w.size() && w[i - 1] != 'c'))) return false;
      return true;
    }
    if (w == "S") return zero_ends;
    if (w == "T" || w == "TT" || w == "TTT" || w == "TST") return true;
    if (is_oneway(kind)) return w == "TTTT" && (kind == 8 || kind == 9);
    static const char *rs[] = { "TcT", "TcTcT", "TcTT", "TTcT", "TSTcT", "TcTST", "TcTSTcT", "TTcTT", "TcTTcT", "TcST", "TScT", "TcScT" };
    for (auto q : rs) if (w == q) return true;
    return false;
  }
  Controls manoeuvre(const std::string &w, double side, double dir, const double s[3], std::vector<double> p, double &k0, double &k1,
                     bool &other_branch) const
  {
    const bool plain = is_plain(kind), hc = is_hc(kind);
    const double ka = par.kappa;
    const Turning g = turning();
    Controls c;
    other_branch = false;
    bool in = start_rule(kind) == 0, fin = end_rule(kind) == 0;
    if (kind == 0 || kind == 1 || kind == 13) { in = s[0] > 0; fin = s[1] > 0; }
    if (!own_word(kind, w, in && fin)) return c;
    if (!(par.kappa >= 0.1 && par.kappa <= 5 && par.sigma >= 0.02 && par.sigma <= 20)) return c;
    if (is_oneway(kind)) dir = way(kind);
    // words with a condition
    int right = -1, right2 = -1;
    if ((w == "TTcTT" || w == "TcTTcT") && !plain) p[2] = p[1];
    if (w == "TTTT" && !plain)
    {
      p[1] = std::fmod(std::fabs(p[1]), 2 * M_PI);
      p[2] = 2 * M_PI - 4 * g.mu - p[1];
      if (p[2] < 0.02) return c;
      right = 1;
      right2 = 2;
    }
    if (!plain)
    {
      if (w == "TSTcT") right = 2;
      if (w == "TcTST") right = 1;
      if (w == "TcTSTcT") { right = 1; right2 = 3; }
    }
    k0 = in || plain ? 0 : side * ka;
    k1 = 0;
    size_t n = 0;
    double cx[8], cy[8];  // centres of the circles
    int nt = 0;
    State q{ 0, 0, 0, 0, 0 };
    size_t done = 0;
    for (size_t i = 0; i < w.size(); i++)
    {
      if (w[i] == 'c')
      {
        dir = -dir;
        if (w[i - 1] == 'T' && w[i + 1] == 'T') side = -side;
        continue;
      }
      double v = n < p.size() ? std::fabs(p[n]) : 1;
      if (w[i] == 'S')
      {
        v = std::max(v, 0.01);
        if (w == "TcScT" && is_cc(kind)) v += 2 * g.r * std::sin(g.mu) * ka;
        piece(c, dir, 1, v / ka, 0, 0);
        side = s[2] >= 0 ? 1 : -1;
        k1 = 0;
      }
      else
      {
        if (i && w[i - 1] == 'T') side = -side;
        if (((int)n == right || (int)n == right2) && w != "TTTT") v = M_PI / 2;
        bool in0 = i == 0 ? in : !(w[i - 1] == 'c' && hc), out0 = i + 1 == w.size() ? fin : !(w[i + 1] == 'c' && hc);
        if (plain) in0 = out0 = false;
        double delta = v;
        double fx = in0 ? g.xc * dir : 0, fy = side * (in0 ? g.yc : 1 / ka);
        if (nt < 8)
        {
          cx[nt] = q.x + std::cos(q.theta) * fx - std::sin(q.theta) * fy;
          cy[nt] = q.y + std::sin(q.theta) * fx + std::cos(q.theta) * fy;
          ++nt;
        }
        add_turn(c, g, in0, out0, side, dir, delta);
        if (delta > 2 * M_PI - 0.02 || (((int)n == right || (int)n == right2) && delta != v)) return Controls();
        k1 = out0 || plain ? 0 : side * ka;
      }
      ++n;
      for (; done < c.size(); ++done)
      {
        double k = c[done].kappa;
        drive(q.x, q.y, q.theta, k, c[done].sigma, c[done].delta_s < 0 ? -1 : 1, std::fabs(c[done].delta_s));
      }
    }
    if (!plain && ((hc && w == "TTcTT") || w == "TTTT") && nt == 4)
    {  // for a given pair of outer circles there are two symmetric pairs of inner ones, the planners build one of them
      double D = std::hypot(cx[3] - cx[0], cy[3] - cy[0]);
      double along = (cx[2] - cx[1]) * (cx[3] - cx[0]) + (cy[2] - cy[1]) * (cy[3] - cy[0]);
      other_branch = (along > 0) == (D < (hc ? 4 * g.r - 2 / ka : 2 * g.r));
    }
    return c;
  }
  // the steering is turned from (to) an intermediate angle before (after) the manoeuvre that begins (ends) with curvature k, zero
  // or the limit; v: part of the limit, above 1 for the opposite side, sign for the direction of travel
  void steer_ends(Controls &c, double &k, double v, bool begin, double side)
  {
    if (kind != 0 && kind != 1 && kind != 13) return;
    double f = std::fabs(v) - std::floor(std::fabs(v)), dir = is_oneway(kind) ? way(kind) : v < 0 ? -1 : 1;
    if (f < 0.02 || f > 0.98) return;
    double sg = k > 0 ? 1 : k < 0 ? -1 : std::fabs(v) > 1 ? -side : side;
    double from = sg * f * par.kappa, len = std::fabs(from - k) / par.sigma, s = (from < k ? 1 : -1) * par.sigma;
    Control u;
    u.delta_s = dir * len;
    u.kappa = begin ? from : k;
    u.sigma = begin ? s : -s;
    c.insert(begin ? c.begin() : c.end(), u);
    k = from;
    out.add(begin ? "op.starts_while_steering" : "op.ends_while_steering");
  }
  void man(const std::string &word, double side, double dir, const double s[3], const std::vector<double> &p)
  {
    double k0 = 0, k1 = 0;
    bool other = false;
    Controls c = manoeuvre(word, side, dir, s, p, k0, k1, other);
    if (c.empty()) { out.add("op.undrivable"); return; }
    if (p.size() >= 8)
    {
      steer_ends(c, k0, p[6], true, side);
      steer_ends(c, k1, p[7], false, side);
    }
    car.kappa = k0;
    State a = car;
    Curve cv(a, c);
    State b = cv.end;
    b.kappa = k1;
    b.d = 0;
    out.simtime += cv.L;
    out.add(std::string("op.word.") + (is_plain(kind) ? "any" : word));
    Hash h;
    h.raw(kind);
    for (char z : word) h.raw((int)z);
    for (auto &g : cv.seg) h.raw((g.d > 0 ? 2 : 0) + (g.k > 1e-6 ? 4 : g.k < -1e-6 ? 8 : 0) + (g.sig > 1e-6 ? 16 : g.sig < -1e-6 ? 32 : 0));
    out.state(h.h);
    double d = 0;
    guarded([&] { d = sp->distance(a, b); });
    out.log.d(d);
    out.add("check.manoeuvre");
    double tol = is_plain(kind) ? 1e-5 * (1 + cv.L) : 6e-3 + 2e-4 * cv.L;
    if (!(d <= cv.L + tol))
    {
      double lo = d, hi = d;
      bool ok = false;
      double v;
      if (stable(*sp, a, b, tol, v) && v <= cv.L + tol && d > v + 2 * tol)
        return viol("isolated", fmt("plans %.9g m, but the %s it was asked about was driven with %.9g m, and %.9g m suffice for goals all around; ", d,
                                    word.c_str(), cv.L, v) + where(a, b, c));
      for (double e : { 1e-7, 1e-5, 1e-4, 1e-3 })
      {
        range(*sp, a, b, e, lo, hi);
        if (lo <= cv.L + tol + 10 * e) { ok = true; break; }
      }
      if (!ok)
        return viol((std::string("beaten:") + kname[kind] + ":" + (is_plain(kind) ? "any" : word) + (other ? ":inner-circles" : "")).c_str(),
                    fmt("plans %.9g m, but the %s it was asked about was driven with %.9g m; ", d, word.c_str(), cv.L) + where(a, b, c));
      out.add("op.discontinuity.manoeuvre");
    }
    if (d >= cv.L - tol) out.add("op.planner_finds_it");
    car = clampk(b);
    leg = false;
    past.push_back(cv);
    if (past.size() > 6) past.erase(past.begin());
  }

  // does state q lie on the curve at arc length s (either side of a segment boundary)?
  bool matches(const Curve &cv, double s, const State &q, double tol, std::string *why = nullptr, double *err = nullptr) const
  {
    const double B = 1e-6;
    double best = 1e300;
    for (int i = 0; i < (int)cv.seg.size(); i++)
    {
      const Seg &g = cv.seg[i];
      if (s < g.s0 - B || s > g.s0 + g.len + B) continue;
      State p = cv.point(i, s);
      double e = std::hypot(p.x - q.x, p.y - q.y), et = ang(p.theta - q.theta), ek = std::fabs(p.kappa - q.kappa);
      bool dok = p.d * q.d > 0 || (q.d == 0 && g.len < 1e-9);
      if (e <= tol && et <= tol && ek <= 3e-4 + 1e-4 * g.len && dok)
      {
        if (err) *err = e;
        return true;
      }
      if (e + et + ek < best)
      {
        best = e + et + ek;
        if (why)
          *why = fmt("at %.9g m of %.9g m: got (%.9g %.9g %.9g kappa %.6g d %g), curve has (%.9g %.9g %.9g kappa %.6g d %g)",
                     s, cv.L, q.x, q.y, q.theta, q.kappa, q.d, p.x, p.y, p.theta, p.kappa, p.d);
      }
    }
    return false;
  }
  double tol_curve(const Curve &cv) const { return 2e-6 * (1 + cv.L) + 2 * cv.slack; }
  void check_samples(const char *what, const Curve &cv, const Path &p, const State &a, const State &b, const Controls &c)
  {
    double tol = tol_curve(cv);
    std::string why;
    if (p.empty()) return viol("samples", std::string(what) + ": no states; " + where(a, b, c));
    double s = 0;
    const double disc = par.disc;
    for (size_t i = 0; i < p.size(); i++)
    {
      out.add("check.sample");
      if (i == 0)
      {
        if (std::hypot(p[0].x - a.x, p[0].y - a.y) > 1e-9 || ang(p[0].theta - a.theta) > 1e-9)
          return viol("sample-start", std::string(what) + ": first state is " + show(p[0]) + "; " + where(a, b, c));
        if (!matches(cv, 0, p[0], tol, &why))
          return viol("sample-off-curve", std::string(what) + ": first state " + why + "; " + where(a, b, c));
        continue;
      }
      // find the smallest arc length in [s, s+disc] where it fits
      double hi = std::min(s + disc * (1 + 1e-9) + 1e-9 + tol, cv.L);  // (where the last state was on the curve is known up to tol)
      bool ok = false;
      double cand[64];
      int nc = 0;
      cand[nc++] = std::min(s + disc, cv.L);
      for (auto &g : cv.seg)
      {
        double e = g.s0 + g.len;
        if (e >= s - 1e-12 && e <= hi && nc < 60) cand[nc++] = std::max(e, s);
      }
      cand[nc++] = s;
      double fit = -1, fe = 1e300, er = 0;
      for (int j = 0; j < nc; j++)
        if (matches(cv, cand[j], p[i], tol, nullptr, &er) && (er < fe - 1e-8 || (er < fe + 1e-8 && cand[j] < fit)))
        {
          fit = cand[j];
          fe = std::min(er, fe);
        }
      if (fit >= 0)
      {
        ok = true;
        s = fit;
        out.mx("sample_error", fe - 2 * cv.slack);
      }
      else
      {
        // anywhere else within one step
        int N = 64;
        double bs = s, be = 1e300;
        for (int j = 0; j <= N; j++)
        {
          double t = s + (hi - s) * j / N;
          State q = cv.point(t);
          double e = std::hypot(q.x - p[i].x, q.y - p[i].y);
          if (e < be) { be = e; bs = t; }
        }
        double lo2 = std::max(s, bs - (hi - s) / N), hi2 = std::min(hi, bs + (hi - s) / N);
        for (int it = 0; it < 60; it++)
        {
          double m1 = lo2 + (hi2 - lo2) * 0.382, m2 = lo2 + (hi2 - lo2) * 0.618;
          State q1 = cv.point(m1), q2 = cv.point(m2);
          if (std::hypot(q1.x - p[i].x, q1.y - p[i].y) < std::hypot(q2.x - p[i].x, q2.y - p[i].y)) hi2 = m2;
          else lo2 = m1;
        }
        double t = 0.5 * (lo2 + hi2);
        if (matches(cv, t, p[i], tol + 1e-6, &why)) { ok = true; s = t; }
      }
      if (!ok)
        return viol("sample-off-curve", std::string(what) + fmt(": state %zu is not on the curve within one step of %.9g m; ", i, disc) +
                                            why + "; " + where(a, b, c));
    }
    if (s < cv.L - 1e-6 - 1e-9 * p.size())
    {
      if (!matches(cv, cv.L, p.back(), tol, &why))
        return viol("sample-end", std::string(what) + fmt(": states end after %.9g of %.9g m; ", s, cv.L) + where(a, b, c));
    }
    out.mx("sample_end_error", std::hypot(p.back().x - cv.end.x, p.back().y - cv.end.y) - 2 * cv.slack);
  }
  static Controls rest(const Controls &c, double s)  // what remains after arc length s
  {
    Controls r;
    double at = 0;
    for (auto &u : c)
    {
      double l = std::fabs(u.delta_s);
      if (at + l <= s) { at += l; continue; }
      Control v = u;
      double cut = s > at ? s - at : 0;
      v.kappa += u.sigma * cut;
      v.delta_s -= (u.delta_s < 0 ? -cut : cut);
      r.push_back(v);
      at += l;
    }
    return r;
  }
  void check_sampling(const State &a, const State &b, const Controls &c, const Curve &cv)
  {
    if (!(cv.L < 1e4)) return;
    double tol = tol_curve(cv);
    Path p;
    guarded([&] { p = sp->integrate(a, c); });
    check_samples("integrate", cv, p, a, b, c);
    if (out.bad()) return;
    Path g;
    guarded([&] { g = sp->path(a, b); });
    check_samples("get_path", cv, g, a, b, c);
    if (out.bad()) return;
    // a display/controller process asking for the reference at its own, unreliable times
    Rng r(clock_seed ^ 0x5bd1e995);
    double now = 0;
    std::string why;
    for (int i = 0; i < clock_n && !out.bad(); i++)
    {
      double u = r.u();
      if (u < 0.45) { now += r.u(0, 2.0 / clock_n); out.add("fault.clock_jitter"); }
      else if (u < 0.55) { out.add("fault.clock_repeat"); }
      else if (u < 0.7) { now -= r.u(0, 0.3); out.add("fault.clock_backward"); }
      else if (u < 0.75) { now = 1 + r.logu(1e-12, 1e3); out.add("fault.clock_late"); }
      else if (u < 0.8) { now = -r.logu(1e-12, 1e3); out.add("fault.clock_early"); }
      else if (u < 0.83) { now = 1; }
      else if (u < 0.86) { now = 0; }
      else if (u < 0.95 && cv.L > 0)
      {  // exactly at, just before or behind a segment boundary
        const Seg &z = cv.seg[r.below((int)cv.seg.size())];
        now = (z.s0 + z.len) / cv.L;
        int w = r.below(3);
        if (w) now += (w == 1 ? -1 : 1) * r.logu(1e-16, 1e-6);
        out.add("fault.clock_boundary");
      }
      else now = r.u();
      State q;
      q.x = q.y = q.theta = q.kappa = q.d = 0;
      dirty_stack((unsigned char)r.next());
      double t = now;
      guarded([&] { q = sp->interpolate(a, c, t); });
      hash_state(out.log, q);
      double tc = std::max(0.0, std::min(1.0, t));
      out.add("check.interpolate");
      if (!matches(cv, tc * cv.L, q, tol, &why))
        return viol("interpolate-off-curve", fmt("interpolate(t=%.17g) ", t) + why + "; " + where(a, b, c));
      // a controller that was restarted continues from the interpolated state with the remaining controls
      if (r.p(0.3) && tc < 1)
      {
        double s = tc * cv.L;
        Controls re = rest(c, s);
        if (!re.empty() && length(re) > 0)
        {
          Curve rc(q, re);
          double te = tol + tol_curve(rc) + tol * cv.L;
          double e = std::hypot(rc.end.x - cv.end.x, rc.end.y - cv.end.y);
          // curvature of q may differ from the cut control by rounding only
          if (e > te + 1e-6)
            return viol("resume", fmt("resuming at %.9g m ends %.6g m off; ", s, e) + where(a, b, c));
          Path pr = sp->integrate(q, re);
          out.add("check.resume");
          check_samples("resumed integrate", rc, pr, q, b, re);
          if (out.bad()) return;
          double e2 = std::hypot(pr.back().x - p.back().x, pr.back().y - p.back().y);
          if (e2 > te + tol * cv.L + 4 * cv.slack + 1e-6)
            return viol("resume", fmt("resuming at %.9g m with integrate ends %.6g m off; ", s, e2) + where(a, b, c));
          double t2 = r.u();
          State q2 = sp->interpolate(q, re, t2);
          if (!matches(rc, t2 * rc.L, q2, tol_curve(rc), &why))
            return viol("resume", fmt("resumed at %.9g m, interpolate(t=%.17g) ", s, t2) + why + "; " + where(q, b, re));
        }
      }
    }
    // other discretisation, same curve
    if (r.p(0.5))
    {
      Params q = par;
      q.disc = r.logu(0.01, 2);
      std::unique_ptr<Space> o = make_space(kind, q);
      Params keep = par;
      par.disc = q.disc;
      check_samples("integrate with another discretization", cv, o->integrate(a, c), a, b, c);
      par = keep;
      out.add("check.rediscretize");
    }
  }

  void go(double frac)
  {
    Controls c;
    State a = car, b = goal;
    guarded([&] { c = sp->controls(a, b); });
    if (c.empty()) return viol("no-controls", "no controls; " + where(a, b, c));
    for (auto &u : c)
    {
      out.log.d(u.delta_s);
      out.log.d(u.kappa);
      out.log.d(u.sigma);
      if (!std::isfinite(u.delta_s) || !std::isfinite(u.kappa) || !std::isfinite(u.sigma))
        return viol("not-finite", "controls are not finite; " + where(a, b, c));
    }
    if (length(c) > 1e4) return viol("goal-missed", "absurdly long; " + where(a, b, c));
    Curve cv(a, c);
    out.add("op.plan");
    Hash h;
    h.raw(kind);
    for (auto &g : cv.seg)
      h.raw((g.len > 1e-6 ? 1 : 0) + (g.d > 0 ? 2 : 0) + (g.k > 1e-6 ? 4 : g.k < -1e-6 ? 8 : 0) +
            (g.sig > 1e-6 ? 16 : g.sig < -1e-6 ? 32 : 0) + (std::fabs(std::fabs(g.k) - par.kappa) < 1e-6 ? 64 : 0));
    out.state(h.h);
    switch (prop)
    {
      case PROP_GOAL: check_goal(a, b, c, cv); break;
      case PROP_LIMIT: check_limits(a, b, c, cv); break;
      case PROP_DIST: check_distance(a, b, c, cv); break;
      case PROP_SAME: check_equivalent(a, b, c, cv); break;
      case PROP_FREE: check_freedom(a, b, c, cv); break;
      case PROP_SAMPLE: check_sampling(a, b, c, cv); break;
    }
    if (out.bad()) return;
    // drive
    double s = frac * cv.L;
    out.simtime += s;
    if (frac >= 1) car = cv.end;
    else car = cv.point(s);
    car = clampk(car);
    if (frac < 1) { driven += s; out.add("fault.interrupted"); }
    else { leg = false; }
    past.push_back(cv);
    if (past.size() > 6) past.erase(past.begin());
  }

  void run(const Plan &plan)
  {
    car = goal = State{ 0, 0, 0, 0, 0 };
    for (auto &l : plan)
    {
      if (out.bad()) return;
      Words w(l);
      const std::string op = w.s(0);
      if (op == "cfg")
      {
        kind = kind_of(w.s(1));
        par.kappa = w.d(2);
        par.sigma = w.d(3);
        par.disc = w.d(4);
        rebuild();
      }
      if (!sp) rebuild();
      if (op == "start") { car = State{ w.d(1), w.d(2), w.d(3), w.d(4), 0 }; car = clampk(car); leg = false; }
      else if (op == "goal") { goal = clampk(State{ w.d(1), w.d(2), w.d(3), w.d(4), 0 }); leg = false; }
      else if (op == "goalrel")
      {
        goal = car;
        shift(goal, w.d(1), w.d(2), w.d(3));
        goal.kappa = w.d(4);
        goal = clampk(goal);
        leg = false;
      }
      else if (op == "goalrun")
      {
        goal = car;
        for (int i = 1; i <= 5; i += 2)
        {
          int m = std::max(-2, std::min(2, (int)w.n(i)));
          bool back = std::abs(m) == 2;  // the arc the other way round: goals of elementary turns
          m = back ? m / 2 : m;
          double l = std::min(10.0, std::fabs(w.d(i + 1))) / par.kappa, d = is_oneway(kind) ? way(kind) : w.d(i + 1) < 0 ? -1 : 1, k = 0;
          double ramp = is_plain(kind) || !m || !(par.sigma > 0) ? 0 : par.kappa / par.sigma;
          if (ramp) drive(goal.x, goal.y, goal.theta, k, m * par.sigma, d, ramp);
          k = m * par.kappa;
          if (back && is_plain(kind)) back = false;
          if (back && par.sigma > 0) l = std::min(l, par.kappa / par.sigma);
          drive(goal.x, goal.y, goal.theta, k, 0, back ? -d : d, l);
          if (ramp) drive(goal.x, goal.y, goal.theta, k, -m * par.sigma, d, ramp);
        }
        goal.kappa = 0;
        leg = false;
      }
      else if (op == "goalpath") { goal = on_past(w.n(1), w.d(2), w.n(3), w.d(4), w.d(5)); leg = false; }
      else if (op == "carpath")
      {
        car = on_past(w.n(1), w.d(2), w.n(3), w.d(4), w.d(5));
        leg = false;
        out.add("fault.towed");
      }
      else if (op == "wrap")
      {
        car.theta += 2 * M_PI * w.n(1);
        goal.theta += 2 * M_PI * w.n(2);
        out.add("fault.heading_turns");
      }
      else if (op == "slip")
      {
        shift(car, w.d(1), w.d(2), w.d(3));
        leg = false;
        out.add("fault.slip");
      }
      else if (op == "reset")
      {
        int k = kind_of(w.s(1));
        if (k != kind) leg = false;
        kind = k;
        par.disc = w.d(2);
        rebuild();
        out.add("fault.planner_restart");
      }
      else if (op == "oom") { oom_n = (uint64_t)w.n(1); oom_len = (uint64_t)w.n(2); }
      else if (op == "clock") { clock_seed = strtoull(w.s(1).c_str(), 0, 10); clock_n = (int)w.n(2); }
      else if (op == "man")
      {
        double q[3] = { w.d(4), w.d(5), w.d(6) };
        std::vector<double> v;
        for (int i = 7; i < 15; i++) v.push_back(w.d(i));
        if (prop == PROP_BEST) man(w.s(1), w.d(2) < 0 ? -1 : 1, w.d(3) < 0 ? -1 : 1, q, v);
      }
      else if (op == "frame")
      {
        fr = true;
        fr_a = w.d(1); fr_x = w.d(2); fr_y = w.d(3); fr_m = w.n(4) != 0; fr_s = w.d(5) > 0 ? w.d(5) : 1;
      }
      else if (op == "detour")
      {
        if (prop == PROP_DIST && is_plain(kind))
        {
          if (!leg)
          {  // announce first
            announced = sp->distance(car, goal);
            leg_from = car;
            driven = 0;
            leg = true;
          }
          for (int i = 0; i < 2; i++)
          {
            double f = std::max(-1.0, std::min(1.0, w.d(1 + 2 * i))), len = w.d(2 + 2 * i) / par.kappa;
            if (is_oneway(kind)) len = std::fabs(len) * way(kind);
            double k = f * par.kappa;
            drive(car.x, car.y, car.theta, k, 0, len < 0 ? -1 : 1, std::fabs(len));
            driven += std::fabs(len);
          }
          on_path = false;
          out.add("fault.detour");
        }
      }
      else if (op == "go") go(w.d(1));
      if (!std::isfinite(car.x + car.y + car.theta)) return viol("not-finite", "vehicle state is not finite after: " + l);
    }
  }
};
}  // namespace

Plan gen(const std::string &prop, Rng &r, uint64_t idx)
{
  (void)idx;
  int pn = prop_no(prop);
  Plan p;
  // limits; the sharpness stays well above and the length of the clothoids well above the library's resolution (1e-4)
  double ka = 1, dm = 0.5, si = 1;
  do
  {
    ka = r.p(0.3) ? 1.0 : r.logu(0.1, 5.0);
    dm = r.p(0.2) ? 0.5 : r.logu(0.03, 10);
    si = ka * ka / (2 * dm);
  } while (si < 0.02 || si > 20);
  double disc = pn == PROP_SAMPLE ? r.logu(0.02, 1.5) : 0.1;
  if (pn == PROP_SAMPLE && r.p(0.3)) disc = 0.1;
  int kind = r.below(NK);
  if (pn == PROP_DIST && r.p(0.5)) { static const int q[3] = { 10, 11, 18 }; kind = q[r.below(3)]; }
  bool degenerate = r.p(0.4), small = r.p(0.5), wraps = r.p(0.5), slips = r.p(0.5), resets = r.p(0.4),
       ooms = r.p(0.25), onpath = r.p(0.6), other = r.p(0.3);
  double R = (small ? r.u(0.5, 3) : 10) / ka;
  auto kappa = [&]() {
    switch (r.below(5))
    {
      case 0: return 0.0;
      case 1: return ka;
      case 2: return -ka;
      case 3: return r.u(-1, 1) * r.logu(1e-6, 1) * ka;
      default: return r.u(-ka, ka);
    }
  };
  auto snap = [&](double v, double unit) {
    if (!degenerate) return v;
    int q = r.below(6);
    if (q < 4) return std::round(v / unit) * unit;
    if (q == 5) return std::round(v / unit) * unit + (r.p(0.5) ? 1 : -1) * r.logu(1e-9, 1e-2);
    return v;
  };
  auto pose = [&](const char *op) {
    p.push_back(std::string(op) + " " + num(snap(r.u(-R, R), 1 / ka)) + " " + num(snap(r.u(-R, R), 1 / ka)) + " " +
                num(snap(r.u(-M_PI, M_PI), M_PI / 4)) + " " + num(kappa()));
  };
  auto turns = [&]() { return r.p(0.7) ? r.below(5) - 2 : r.below(200) - 100; };
  p.push_back(fmt("cfg %s %.17g %.17g %.17g", kname[kind], ka, si, disc));
  pose("start");
  if (pn == PROP_BEST)
  {
    static const char *words[] = { "S", "T", "TT", "TcT", "TcTcT", "TcTT", "TTcT", "TST", "TSTcT", "TcTST", "TcTSTcT", "TTcTT", "TcTTcT", "TTT", "TcST", "TScT", "TcScT", "TTTT" };
    int n = 1 + r.below(5);
    for (int i = 0; i < n; i++)
    {
      if (wraps && r.p(0.3)) { int a = turns(), b = turns(); p.push_back(fmt("wrap %d %d", a, b)); }
      if (slips && r.p(0.2)) { double m = r.logu(1e-6, 2); p.push_back("slip " + num(r.u(-m, m)) + " " + num(r.u(-m, m)) + " " + num(r.u(-m, m))); }
      if (resets && r.p(0.3)) { kind = other ? r.below(NK) : kind; p.push_back(fmt("reset %s %.17g", kname[kind], 0.1)); }
      if (ooms && r.p(0.4)) { int a = (int)r.logu(1, 400); p.push_back(fmt("oom %d %d", a, 1 + r.below(3))); }
      std::string w;
      if (is_plain(kind))
      {
        int len = 1 + r.below(6);
        for (int j = 0; j < len; j++)
        {
          if (j && kind == 18 && r.p(0.4)) w += 'c';
          w += r.p(0.7) ? 'T' : 'S';
        }
        if (w == "T") w = "TS";
      }
      else do { w = words[r.below(18)]; } while (!Mission::own_word(kind, w, true));
      double big = r.p(0.5) ? 1 : r.p(0.5) ? 0.3 : 6.2;
      std::string l = "man " + w + fmt(" %d %d %d %d %d", r.p(0.5) ? 1 : -1, r.p(0.5) ? 1 : -1, r.p(0.5) ? 1 : -1, r.p(0.5) ? 1 : -1, r.p(0.5) ? 1 : -1);
      for (int j = 0; j < 6; j++) l += " " + num(degenerate && r.p(0.3) ? M_PI / 4 * (1 + r.below(7)) : r.u(0, big));
      for (int j = 0; j < 2; j++) l += " " + num(r.p(0.5) ? 0 : r.u(-2, 2));
      p.push_back(l);
    }
    return p;
  }
  int goals = 1 + r.below(pn == PROP_SAMPLE ? 2 : 4);
  double kap = 0;
  for (int g = 0; g < goals; g++)
  {
    double u = r.u();
    auto tiny = [&](double q) { return r.p(0.5) ? 0.0 : (r.p(0.5) ? 1 : -1) * r.logu(1e-9, q); };
    if (g && onpath && u < 0.5)
      p.push_back(fmt("goalpath %d %.17g %d %.17g %.17g", r.below(4), r.p(0.2) ? r.below(2) : r.u(), r.p(0.3), tiny(0.01),
                      tiny(0.01)));
    else if (u < 0.6 && degenerate)
    {
      double dx = r.p(0.5) ? 0 : snap(r.u(-R, R), 1 / ka), dy = r.p(0.5) ? 0 : snap(r.u(-R, R), 1 / ka);
      p.push_back("goalrel " + num(dx) + " " + num(dy) + " " + num(r.p(0.4) ? 0 : snap(r.u(-M_PI, M_PI), M_PI / 4)) + " " +
                  num(kappa()));
    }
    else if (u > (pn == PROP_SAME ? 0.75 : 0.88))
    {
      std::string l = "goalrun";
      for (int i = 0; i < 3; i++) l += fmt(" %d ", r.below(5) - 2) + num((r.p(0.3) ? 0 : r.p(0.3) ? M_PI / 4 * (1 + r.below(7)) : r.u(0, 6)) * (r.p(0.5) ? 1 : -1));
      if (r.p(0.4)) l = fmt("goalrun %d ", r.p(0.5) ? 2 : -2) + num(r.p(0.5) ? r.u(0, 6) : std::fabs(ka * ka / si - 4.5948) + r.logu(1e-4, 0.3)) + " 0 0 0 0";
      p.push_back(l);
      if (r.p(0.4)) { double m = r.logu(1e-6, 2e-4); p.push_back("slip " + num(r.u(-m, m)) + " " + num(r.u(-m, m)) + " " + num(r.u(-m, m))); }
    }
    else if (u > 0.6 && u < 0.66)  // right beside the vehicle
    {
      double m = r.logu(2e-4, 0.1), th = r.p(0.5) ? 0 : r.u(-m, m);
      if (r.p(0.7)) p.push_back("start " + num(r.u(-R, R)) + " " + num(r.u(-R, R)) + " " + num(r.u(-M_PI, M_PI)) + " " + num(kap = kappa()));
      p.push_back("goalrel " + num(r.u(-m, m)) + " " + num(r.u(-m, m)) + " " + num(th) + " " + num(kap));
    }
    else
      pose("goal");
    int stops = r.below(4);
    for (int s = 0; s <= stops; s++)
    {
      if (wraps && r.p(0.4)) { int a = turns(), b = turns(); p.push_back(fmt("wrap %d %d", a, b)); }
      if (slips && r.p(0.2)) { double m = r.logu(1e-6, 2); p.push_back("slip " + num(r.u(-m, m)) + " " + num(r.u(-m, m)) + " " + num(r.u(-m, m))); }
      if (onpath && g && r.p(0.1)) p.push_back(fmt("carpath %d %.17g %d %.17g %.17g", r.below(4), r.u(), r.p(0.3), tiny(0.01), tiny(0.01)));
      if (resets && r.p(0.3)) p.push_back(fmt("reset %s %.17g", kname[other ? r.below(NK) : kind], pn == PROP_SAMPLE ? r.logu(0.02, 1.5) : 0.1));
      if (ooms && r.p(0.4)) { int n = (int)r.logu(1, 400); p.push_back(fmt("oom %d %d", n, 1 + r.below(3))); }
      if (pn == PROP_SAMPLE) p.push_back(fmt("clock %llu %d", (unsigned long long)r.next(), 3 + r.below(20)));
      if (pn == PROP_SAME && r.p(0.8))
      {
        double an = r.p(0.3) ? 0 : r.p(0.5) ? M_PI / 2 * r.below(4) : r.u(-M_PI, M_PI), sc = r.p(0.5) ? 1 : r.logu(0.3, 3);
        if (ka / sc < 0.1 || ka / sc > 5 || si / sc / sc < 0.02 || si / sc / sc > 20) sc = 1;
        double fx = r.p(0.3) ? 0 : r.u(-20, 20), fy = r.p(0.3) ? 0 : r.u(-20, 20);
        p.push_back(fmt("frame %.17g %.17g %.17g %d %.17g", an, fx, fy, r.p(0.4), sc));
      }
      if (pn == PROP_DIST && r.p(0.35))
        p.push_back("detour " + num(r.p(0.6) ? r.below(3) - 1 : r.u(-1, 1)) + " " + num(r.u(-1, 1) * r.logu(0.01, 4)) + " " +
                    num(r.p(0.6) ? r.below(3) - 1 : r.u(-1, 1)) + " " + num(r.p(0.5) ? 0 : r.u(-1, 1) * r.logu(0.01, 4)));
      p.push_back("go " + num(s == stops ? 1.0 : r.p(0.1) ? 0.0 : r.u()));
    }
  }
  return p;
}

void exec(const std::string &prop, const Plan &plan, Out &out)
{
  Mission m(out, prop_no(prop));
  m.run(plan);
}
}  // namespace sim

// Belief simulator (C09, C10). C09: a fleet of simulated vehicles drives the controls with their own kinematics, estimator
// and feedback controller; each of them meets one disturbance (one motion error, one measurement error, or one initial
// error), so that the sums of outer products over the fleet are the exact small-noise covariances.
// C10: validity of the beliefs and handover between propagations, planners and filter settings.
//
//   space KIND KAPPA SIGMA DISC
//   filter A1 A2 A3 A4 SX SY ST K1 K2 K3
//   start X Y TH
//   sigma / lambda A11 A21 A22 A31 A32 A33      initial covariance = A A'
//   seg DS K S                                   controls ...
//   goal X Y TH K                                ... or the planner's controls to this goal
//   hand J RESTART REFILTER                      belief is handed over after control J (to a restarted planner; settings again)
//   oom N LEN                                    failing allocations in the next propagation, which is then repeated
//   dirty BYTE
#include <Eigen/Dense>
#include <algorithm>
#include <set>
#include "query.hpp"

namespace sim
{
namespace
{
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 3, 2> M32;
struct Step  // one propagation step of the path under test
{
  double d, h, k, sig;  // direction, arc length, curvature at its begin, sharpness
  size_t to;            // index of the state it leads to
};
// one step of a vehicle; exact = false: a steering error on a straight acts at the end of the step
V3 move(const V3 &x, double ds, double k, double sig, bool straight, bool exact, double knom)
{
  double X = x[0], Y = x[1], th = x[2];
  double d = ds < 0 ? -1 : 1, L = std::fabs(ds);
  if (straight && !exact)
  {
    X += ds * std::cos(th);
    Y += ds * std::sin(th);
    th += ds * k;
    (void)knom;
    return V3(X, Y, th);
  }
  double kk = k;
  drive(X, Y, th, kk, sig, d, L);
  return V3(X, Y, th);
}
struct Fleet
{
  std::vector<M3> Sigma, Lambda, Total;  // per step, after the step
};
M3 outer(const V3 &a) { return a * a.transpose(); }

Fleet simulate(const State &start, const std::vector<Step> &st, const Noise &n, const M3 &A0, const M3 &B0, bool exact, Out &out)
{
  const double E = 2e-5;  // size of the disturbances (the statistics are scaled back)
  size_t N = st.size();
  std::vector<V3> nom(N + 1);
  nom[0] = V3(start.x, start.y, start.theta);
  auto straight = [](const Step &s) { return s.sig == 0 && std::fabs(s.k) <= 1e-4; };
  for (size_t i = 0; i < N; i++) nom[i + 1] = move(nom[i], st[i].d * st[i].h, st[i].k, st[i].sig, straight(st[i]), true, st[i].k);
  // estimator gains: the vehicles' own filter, Jacobians by difference quotients
  M3 R = M3::Zero();
  R(0, 0) = n.meas.std_x * n.meas.std_x;
  R(1, 1) = n.meas.std_y * n.meas.std_y;
  R(2, 2) = n.meas.std_theta * n.meas.std_theta;
  std::vector<M3> Lg(N);
  std::vector<Eigen::Matrix<double, 2, 3>> Kg(N);
  std::vector<double> q0(N), q1(N);
  M3 S = A0 * A0.transpose();
  const double e = 1e-5;
  for (size_t i = 0; i < N; i++)
  {
    const Step &s = st[i];
    double u = s.d * s.h;
    M3 F;
    M32 G;
    for (int j = 0; j < 3; j++)
    {
      V3 a = nom[i], b = nom[i];
      a[j] += e;
      b[j] -= e;
      F.col(j) = (move(a, u, s.k, s.sig, straight(s), exact, s.k) - move(b, u, s.k, s.sig, straight(s), exact, s.k)) / (2 * e);
    }
    double eu = std::min(e, 0.25 * s.h);
    G.col(0) = (move(nom[i], u + eu, s.k, s.sig, straight(s), exact, s.k) - move(nom[i], u - eu, s.k, s.sig, straight(s), exact, s.k)) / (2 * eu);
    G.col(1) = (move(nom[i], u, s.k + e, s.sig, straight(s), exact, s.k) - move(nom[i], u, s.k - e, s.sig, straight(s), exact, s.k)) / (2 * e);
    q0[i] = n.motion.alpha1 * s.h * s.h + n.motion.alpha2 * s.k * s.k;
    q1[i] = n.motion.alpha3 * s.h * s.h + n.motion.alpha4 * s.k * s.k;
    Eigen::Matrix2d Q = Eigen::Matrix2d::Zero();
    Q(0, 0) = q0[i];
    Q(1, 1) = q1[i];
    M3 P = F * S * F.transpose() + G * Q * G.transpose();
    Lg[i] = P * (P + R).inverse();
    M3 IL = M3::Identity() - Lg[i];
    S = IL * P * IL.transpose() + Lg[i] * R * Lg[i].transpose();
    Eigen::Matrix<double, 2, 3> K = Eigen::Matrix<double, 2, 3>::Zero();
    K(0, 0) = n.ctrl.k1;
    K(1, 1) = n.ctrl.k2;
    K(1, 2) = s.d * n.ctrl.k3;
    M3 Rot = M3::Zero();
    double c = std::cos(nom[i][2]), sn = std::sin(nom[i][2]);
    Rot << c, sn, 0, -sn, c, 0, 0, 0, 1;
    Kg[i] = K * Rot;
  }
  Fleet f;
  f.Sigma.assign(N, M3::Zero());
  f.Lambda = f.Total = f.Sigma;
  // a pair of vehicles with opposite disturbances: half their difference is free of second-order effects
  auto vehicle = [&](const V3 &dx, const V3 &dxh, size_t from, int channel, double amp, double scale) {
    // channel 0,1: motion, 2..4: measurement, at step `from`; -1: initial error only
    V3 x[2], xh[2];
    for (int q = 0; q < 2; q++)
    {
      double g = q ? -1 : 1;
      x[q] = nom[from] + g * dx;
      xh[q] = nom[from] + g * dxh;
    }
    for (size_t i = from; i < N; i++)
    {
      const Step &s = st[i];
      bool sl = straight(s);
      for (int q = 0; q < 2; q++)
      {
        double g = q ? -amp : amp;
        Eigen::Vector2d corr = Kg[i] * (xh[q] - nom[i]);
        double u0 = s.d * s.h - corr[0], u1 = s.k - corr[1];
        double w0 = i == from && channel == 0 ? g : 0, w1 = i == from && channel == 1 ? g : 0;
        V3 xp = move(x[q], u0 + w0, u1 + w1, s.sig, sl, exact, s.k);
        V3 xe = move(xh[q], u0, u1, s.sig, sl, exact, s.k);
        V3 z = xp;
        if (i == from && channel >= 2) z[channel - 2] += g;
        xh[q] = xe + Lg[i] * (z - xe);
        x[q] = xp;
      }
      V3 X = 0.5 * (x[0] - x[1]), H = 0.5 * (xh[0] - xh[1]);
      f.Sigma[i] += outer(X - H) * scale;
      f.Lambda[i] += outer(H) * scale;
      f.Total[i] += outer(X) * scale;
    }
    out.add("fault.disturbed_vehicle", 2);
  };
  double unit = 1 / (E * E);
  for (int j = 0; j < 3; j++)
  {
    V3 a = A0.col(j) * E, b = B0.col(j) * E;
    if (a.norm() > 0) vehicle(a, V3::Zero(), 0, -1, 0, unit);
    if (b.norm() > 0) vehicle(b, b, 0, -1, 0, unit);
  }
  for (size_t i = 0; i < N; i++)
  {
    double sd[5] = { std::sqrt(q0[i]), std::sqrt(q1[i]), n.meas.std_x, n.meas.std_y, n.meas.std_theta };
    for (int c = 0; c < 5; c++)
      if (sd[c] > 0) vehicle(V3::Zero(), V3::Zero(), i, c, sd[c] * E, unit);
  }
  return f;
}
M3 m3(const double *c)
{
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r(i, j) = c[4 * i + j];
  return r;
}
void put(const M3 &m, double *c)
{
  for (int i = 0; i < 16; i++) c[i] = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) c[4 * i + j] = m(i, j);
}
double rel_diff(const M3 &a, const M3 &ref, V3 floor = V3::Zero())
{
  double worst = 0;
  double tr = ref.trace();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
    {
      double s = std::sqrt(std::max(ref(i, i), floor[i]) * std::max(ref(j, j), floor[j])) + 1e-6 * tr + 1e-14;
      double d = std::fabs(a(i, j) - ref(i, j)) / s;
      if (!(d <= worst)) worst = std::isfinite(d) ? d : 1e9;
    }
  return worst;
}
std::string show(const M3 &m)
{
  return fmt("[%.6g %.6g %.6g; %.6g %.6g %.6g; %.6g %.6g %.6g]", m(0, 0), m(0, 1), m(0, 2), m(1, 0), m(1, 1), m(1, 2), m(2, 0), m(2, 1),
             m(2, 2));
}

struct Belief
{
  Out &out;
  int prop;
  Cfg cfg;
  State start{ 0, 0, 0, 0, 0 }, goal{ 0, 0, 0, 0, 0 };
  bool have_goal = false;
  M3 A0 = M3::Zero(), B0 = M3::Zero();
  Controls c;
  struct Hand { size_t j; bool restart, refilter; };
  std::vector<Hand> hands;
  uint64_t oom_n = 0, oom_len = 0;
  unsigned char dirt = 0xA5;
  Belief(Out &o, int p) : out(o), prop(p) {}

  CovPath propagate(const Space &sp, const State_With_Covariance &b, const Controls &u)
  {
    if (oom_n)
    {
      bool hit = false;
      g_alloc.arm(oom_n, oom_len);
      try { sp.integrate_cov(b, u); }
      catch (std::bad_alloc &) { g_alloc.disarm(); hit = true; }
      g_alloc.disarm();
      if (hit) out.add("fault.oom");
      oom_n = 0;
    }
    dirty_stack(dirt);
    return sp.integrate_cov(b, u);
  }
  bool valid(const CovPath &p, const char *what)
  {
    double big[3] = { 0, 0, 0 };  // rounding is relative to the largest uncertainty met so far
    for (size_t i = 0; i < p.size(); i++)
    {
      const State_With_Covariance &s = p[i];
      const double *m[3] = { s.Sigma, s.Lambda, s.covariance };
      static const char *nm[3] = { "Sigma", "Lambda", "total" };
      for (int q = 0; q < 3; q++)
      {
        M3 c3 = m3(m[q]);
        big[q] = std::max(big[q], std::fabs(c3.trace()));
        double tr = big[q];
        for (int k = 0; k < 16; k++)
          if (!std::isfinite(m[q][k])) { out.viol("belief-not-finite", fmt("%s: %s of state %zu is not finite", what, nm[q], i)); return false; }
        for (int k = 0; k < 4; k++)
          if (m[q][12 + k] != 0 || m[q][4 * k + 3] != 0)
          { out.viol("belief-curvature-entries", fmt("%s: curvature entries of %s at state %zu are not zero", what, nm[q], i)); return false; }
        double asym = (c3 - c3.transpose()).cwiseAbs().maxCoeff();
        if (asym > 1e-6 * c3.cwiseAbs().maxCoeff() + 1e-9 * tr + 1e-20) { out.viol("belief-not-symmetric", fmt("%s: %s of state %zu: ", what, nm[q], i) + show(c3)); return false; }
        Eigen::SelfAdjointEigenSolver<M3> es(0.5 * (c3 + c3.transpose()), Eigen::EigenvaluesOnly);
        double lo = es.eigenvalues()[0];
        if (!(lo >= -1e-6 * c3.cwiseAbs().maxCoeff() - 1e-9 * tr - 1e-20))
        { out.viol("belief-not-psd", fmt("%s: %s of state %zu has eigenvalue %.6g: ", what, nm[q], i, lo) + show(c3)); return false; }
        out.add("check.covariance");
      }
      M3 sum = m3(s.Sigma) + m3(s.Lambda), tot = m3(s.covariance);
      if ((sum - tot).cwiseAbs().maxCoeff() > 1e-9 * (std::fabs(tot.trace()) + std::fabs(sum.trace()) + 1e-12))
      { out.viol("belief-sum", fmt("%s: total of state %zu is not Sigma + Lambda: ", what, i) + show(tot) + " instead of " + show(sum)); return false; }
      // turning the steering at a standstill does not change what is known about the pose
      if (i && p[i].state.x == p[i - 1].state.x && p[i].state.y == p[i - 1].state.y && p[i].state.theta == p[i - 1].state.theta &&
          p[i].state.kappa != p[i - 1].state.kappa)
      {
        out.add("check.standstill");
        for (int q = 0; q < 3; q++)
        {
          const double *o[3] = { p[i - 1].Sigma, p[i - 1].Lambda, p[i - 1].covariance };
          if ((m3(m[q]) - m3(o[q])).cwiseAbs().maxCoeff() > 1e-9 * (big[q] + 1e-12))
          { out.viol("belief-standstill", fmt("%s: %s of state %zu changes at a standstill: ", what, nm[q], i) + show(m3(m[q])) + " after " + show(m3(o[q]))); return false; }
        }
      }
    }
    return true;
  }
  bool same_states(const CovPath &p, const Path &q, const char *what)
  {
    if (p.size() != q.size())
    { out.viol("belief-path", fmt("%s: %zu states with, %zu without covariance", what, p.size(), q.size())); return false; }
    for (size_t i = 0; i < p.size(); i++)
    {
      const State &a = p[i].state, &b = q[i];
      double d = std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.theta - b.theta) + std::fabs(a.kappa - b.kappa) + std::fabs(a.d - b.d);
      if (!(d <= 1e-9 * (1 + std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.theta))))
      { out.viol("belief-path", fmt("%s: state %zu differs: ", what, i) + sim::show(a) + " and " + sim::show(b)); return false; }
    }
    out.add("check.same_path");
    return true;
  }
  void run(const Plan &plan)
  {
    for (auto &l : plan)
    {
      Words w(l);
      const std::string op = w.s(0);
      if (op == "space") { Words v("space 0 " + l.substr(6)); cfg = cfg_of(v); }
      else if (op == "filter") { cfg.noise = noise_of(w, 1); cfg.has_filter = true; }
      else if (op == "start") start = State{ w.d(1), w.d(2), w.d(3), w.d(4), 0 };
      else if (op == "goal") { goal = State{ w.d(1), w.d(2), w.d(3), w.d(4), 0 }; have_goal = true; }
      else if (op == "sigma" || op == "lambda")
      {
        M3 &m = op == "sigma" ? A0 : B0;
        m << w.d(1), 0, 0, w.d(2), w.d(3), 0, w.d(4), w.d(5), w.d(6);
      }
      else if (op == "seg")
      {
        Control u;
        u.delta_s = w.d(1); u.kappa = w.d(2); u.sigma = w.d(3);
        if (u.delta_s != 0) c.push_back(u);
      }
      else if (op == "hand") hands.push_back(Hand{ (size_t)w.n(1), w.n(2) != 0, w.n(3) != 0 });
      else if (op == "oom") { oom_n = (uint64_t)w.n(1); oom_len = (uint64_t)w.n(2); }
      else if (op == "dirty") { dirt = (unsigned char)w.n(1); g_alloc.dirt = dirt; out.add("fault.dirty_memory"); }
    }
    if (!cfg.has_filter) return;
    std::unique_ptr<Space> sp = make_space(cfg.kind, cfg.par);
    sp->set_filter(cfg.noise);
    State_With_Covariance b0;
    b0.state = start;
    M3 S0 = A0 * A0.transpose(), L0 = B0 * B0.transpose();
    put(S0, b0.Sigma);
    put(L0, b0.Lambda);
    put(S0 + L0, b0.covariance);
    if (c.empty() && have_goal)
    {
      c = sp->controls(start, goal);
      out.add("op.planned");
      if (prop == 10)
      {
        dirty_stack(dirt);
        CovPath pc = sp->path_cov(b0, goal);
        if (!valid(pc, "get_path_with_covariance")) return;
        if (!same_states(pc, sp->path(start, goal), "get_path_with_covariance")) return;
      }
    }
    if (c.empty()) return;
    if (!(cfg.noise.meas.std_x > 0 && cfg.noise.meas.std_y > 0 && cfg.noise.meas.std_theta > 0)) return;  // (minimisation)
    if (length(c) > 300) return;
    // propagate in pieces
    std::sort(hands.begin(), hands.end(), [](const Hand &a, const Hand &b) { return a.j < b.j; });
    // whether a curvature jump of rounding size between segments is taken or carried along is left open: no handover there
    std::set<size_t> clean;
    {
      double k_end = c[0].kappa;
      for (size_t i = 0; i < c.size(); i++)
      {
        double j = std::fabs(c[i].kappa - k_end);
        if (j < 1e-9 || j > 3e-4) clean.insert(i);
        k_end = c[i].kappa + c[i].sigma * std::fabs(c[i].delta_s);
      }
      std::vector<Hand> h;
      for (auto &x : hands)
        if (x.j >= c.size() || clean.count(x.j)) h.push_back(x);
        else out.add("op.no_handover_at_tiny_jump");
      hands = h;
    }
    CovPath whole;
    State_With_Covariance b = b0;
    std::vector<size_t> piece_start;
    size_t at = 0;
    for (size_t i = 0; i <= hands.size(); i++)
    {
      size_t to = i < hands.size() ? std::min(hands[i].j, c.size()) : c.size();
      if (to > at)
      {
        Controls part(c.begin() + at, c.begin() + to);
        CovPath p = propagate(*sp, b, part);
        if (p.empty()) { out.viol("belief-path", "no states"); return; }
        if (prop == 10 && !valid(p, "integrate_with_covariance")) return;
        if (prop == 10 && !same_states(p, sp->integrate(b.state, part), "integrate_with_covariance")) return;
        piece_start.push_back(whole.size());
        whole.insert(whole.end(), p.begin(), p.end());
        b = p.back();
        at = to;
      }
      if (i < hands.size())
      {
        if (hands[i].restart) { sp.reset(); sp = make_space(cfg.kind, cfg.par); sp->set_filter(cfg.noise); out.add("fault.planner_restart"); }
        else if (hands[i].refilter) { Noise other; sp->set_filter(other); sp->set_filter(cfg.noise); out.add("fault.filter_set_again"); }
        out.add("fault.handover");
      }
    }
    for (auto &s : whole)
    {
      hash_state(out.log, s.state);
      for (int i = 0; i < 16; i++) { out.log.d(s.Sigma[i]); out.log.d(s.Lambda[i]); out.log.d(s.covariance[i]); }
    }
    out.simtime += length(c);
    Hash hs;
    hs.raw((uint64_t)cfg.kind);
    for (auto &u : c) hs.raw((u.delta_s > 0 ? 1 : 0) + (u.kappa > 1e-4 ? 2 : u.kappa < -1e-4 ? 4 : 0) + (u.sigma > 0 ? 8 : u.sigma < 0 ? 16 : 0));
    hs.raw(hands.size());
    out.state(hs.h);
    if (prop == 10)
    {
      // the first belief is the given one
      M3 f = m3(whole[0].Sigma);
      if ((f - S0).cwiseAbs().maxCoeff() > 1e-12 * (1 + S0.trace()) || (m3(whole[0].Lambda) - L0).cwiseAbs().maxCoeff() > 1e-12 * (1 + L0.trace()))
        return out.viol("belief-start", "the first belief is not the given one: " + show(f) + " instead of " + show(S0));
      if (hands.empty()) return;
      CovPath one = propagate(*sp, b0, c);
      // uninterrupted propagation gives the same beliefs where the states coincide
      const State_With_Covariance &x = one.back(), &y = whole.back();
      // with motion noise far above measurement noise the filter's inverse amplifies rounding: a floor from the largest belief met
      double big = 0;
      for (auto &s : one) big = std::max(big, m3(s.covariance).trace());
      V3 fl = V3::Constant(1e-6 * big);
      double e = rel_diff(m3(y.Sigma), m3(x.Sigma), fl) + rel_diff(m3(y.Lambda), m3(x.Lambda), fl) + rel_diff(m3(y.covariance), m3(x.covariance), fl);
      double g = std::fabs(x.state.x - y.state.x) + std::fabs(x.state.y - y.state.y) + std::fabs(x.state.theta - y.state.theta);
      out.mx("handover_difference", e);
      if (!(e <= 1e-3) || !(g <= 1e-6 * (1 + length(c))))
        return out.viol("belief-handover", fmt("belief handed over %zu times ends as ", hands.size()) + show(m3(y.covariance)) + ", uninterrupted as " +
                                               show(m3(x.covariance)) + fmt(" (%s)", kname[cfg.kind]));
      out.add("check.handover");
      return;
    }
    // C09: the steps taken
    for (auto &u : c)
      if ((u.sigma != 0 && std::fabs(u.sigma) < 1e-2)) { out.add("op.skipped_tiny_sharpness"); return; }
    // whether a curvature jump of rounding size between segments is taken or carried along is left open
    double k_end = c[0].kappa;
    for (auto &u : c)
    {
      double j = std::fabs(u.kappa - k_end);
      if (j > 1e-7 && j < 3e-4) { out.add("op.skipped_tiny_jump"); return; }
      k_end = u.kappa + u.sigma * std::fabs(u.delta_s);
    }
    std::vector<Step> st;
    size_t ci = 0;
    double used_len = 0, k = c[0].kappa;
    for (size_t i = 0; i + 1 < whole.size(); i++)
    {
      const State &p = whole[i].state, &q = whole[i + 1].state;
      double chord = std::hypot(p.x - q.x, p.y - q.y) + std::fabs(p.theta - q.theta);
      while (ci < c.size() && std::fabs(c[ci].delta_s) - used_len <= 1e-11) { ++ci; used_len = 0; k = ci < c.size() ? c[ci].kappa : 0; }
      if (ci >= c.size() || chord < 1e-11)
      {  // repeated state
        if (!(rel_diff(m3(whole[i + 1].Sigma), m3(whole[i].Sigma)) < 1e-9))
          return out.viol("belief-statistics", fmt("state %zu repeats a state, but with another belief", i + 1));
        continue;
      }
      double rem = std::fabs(c[ci].delta_s) - used_len, d = c[ci].delta_s < 0 ? -1 : 1;
      double h = std::min(cfg.par.disc, rem);
      auto err = [&](double t) {
        double X = p.x, Y = p.y, th = p.theta, kk = k;
        drive(X, Y, th, kk, c[ci].sigma, d, t);
        return std::hypot(X - q.x, Y - q.y);
      };
      if (err(h) > 1e-6)
      {
        double lo = 0, hi = h;
        for (int it = 0; it < 80; it++)
        {
          double m1 = lo + (hi - lo) * 0.382, m2 = lo + (hi - lo) * 0.618;
          if (err(m1) < err(m2)) hi = m2;
          else lo = m1;
        }
        h = 0.5 * (lo + hi);
        if (err(h) > 1e-5) { out.add("op.skipped_unknown_steps"); return; }  // not this property's business (C08)
      }
      st.push_back(Step{ d, h, k, std::fabs(c[ci].sigma) > 1e-4 ? c[ci].sigma : 0.0, i + 1 });
      used_len += h;
      k += c[ci].sigma * h;
    }
    if (st.empty() || st.size() > 160) { out.add("op.skipped_long"); return; }
    Fleet A = simulate(start, st, cfg.noise, A0, B0, true, out);
    Fleet B = simulate(start, st, cfg.noise, A0, B0, false, out);
    // entries that are tiny compared with the largest uncertainty on the way only carry rounding
    auto floor_of = [](const std::vector<M3> &v) {
      double xy = 0, th = 0;
      for (auto &m : v) { xy = std::max(xy, std::max(m(0, 0), m(1, 1))); th = std::max(th, m(2, 2)); }
      double lo = 1e-5 * std::max(xy, th);
      return V3(1e-3 * xy + lo, 1e-3 * xy + lo, 1e-3 * th + lo);
    };
    V3 fS = floor_of(B.Sigma), fL = floor_of(B.Lambda), fT = floor_of(B.Total);
    bool modelA = true, modelB = true;
    double wa = 0, wb = 0;
    std::string why;
    for (size_t i = 0; i < st.size(); i++)
    {
      const State_With_Covariance &s = whole[st[i].to];
      double a = std::max(rel_diff(m3(s.Sigma), A.Sigma[i], fS), std::max(rel_diff(m3(s.Lambda), A.Lambda[i], fL), rel_diff(m3(s.covariance), A.Total[i], fT)));
      double bb = std::max(rel_diff(m3(s.Sigma), B.Sigma[i], fS), std::max(rel_diff(m3(s.Lambda), B.Lambda[i], fL), rel_diff(m3(s.covariance), B.Total[i], fT)));
      wa = std::max(wa, a);
      wb = std::max(wb, bb);
      // a badly steered fleet is so far off that what its estimators disagree on is lost in the nonlinearity: not small noise any more
      if (B.Lambda[i].trace() > 1e5 * B.Sigma[i].trace()) { out.add("op.skipped_runaway"); break; }
      out.add("check.belief");
      const double T = 5e-3;
      if (modelA && !(a <= T)) modelA = false;
      if (modelB && !(bb <= T)) modelB = false;
      if (!modelA && !modelB && why.empty())
        why = fmt("%s: after step %zu (d=%g h=%.6g kappa=%.6g sigma=%.6g) ", kname[cfg.kind], i, st[i].d, st[i].h, st[i].k, st[i].sig) + "Sigma " +
              show(m3(s.Sigma)) + ", fleet " + show(B.Sigma[i]) + "; Lambda " + show(m3(s.Lambda)) + ", fleet " + show(B.Lambda[i]) + "; total " +
              show(m3(s.covariance)) + ", fleet " + show(B.Total[i]);
    }
    out.mx("deviation", std::min(wa, wb));
    out.add(modelA ? "probe.exact_model" : "probe.first_order_model");
    if (!modelA && !modelB) out.viol("belief-statistics", why);
  }
};
}  // namespace

Plan gen(const std::string &prop, Rng &r, uint64_t idx)
{
  int pn = atoi(prop.c_str() + 1);
  Plan p;
  double ka = 1, dm = 0.5;
  do
  {
    ka = r.p(0.4) ? 1.0 : r.p(0.6) ? r.logu(0.3, 2.0) : r.logu(0.1, 5);
    dm = r.p(0.6) ? r.logu(0.1, 1.5) : r.logu(0.03, 10);
  } while (ka * ka / (2 * dm) < 0.02 || ka * ka / (2 * dm) > 20);
  int kind = (int)(idx % NK);
  double disc = pn == 9 ? r.logu(0.05, 0.4) : r.logu(0.03, 0.8);
  p.push_back(fmt("space %s %.17g %.17g %.17g 0", kname[kind], ka, ka * ka / (2 * dm), disc));
  auto nz = [&](double hi) { return r.p(0.2) ? 0.0 : r.logu(1e-4, hi); };
  double hi = pn == 9 ? 0.3 : 2;
  p.push_back(fmt("filter %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", nz(hi), nz(hi), nz(hi), nz(hi), r.logu(1e-3, 1), r.logu(1e-3, 1),
                  r.logu(1e-3, 0.5), r.p(0.2) ? 0 : r.u(0, 2), r.p(0.2) ? 0 : r.u(0, 2), r.p(0.2) ? 0 : r.u(0, 2)));
  p.push_back(fmt("start %.17g %.17g %.17g 0", r.u(-5, 5), r.u(-5, 5), r.p(0.3) ? M_PI / 2 * (r.below(9) - 4) : r.u(-7, 7)));
  auto chol = [&](const char *op) {
    double s = r.logu(1e-3, 0.5);
    p.push_back(fmt("%s %.17g %.17g %.17g %.17g %.17g %.17g", op, s * r.u(), s * r.u(-1, 1), s * r.u(), s * r.u(-1, 1), s * r.u(-1, 1), s * r.u()));
  };
  if (r.p(0.6)) chol("sigma");
  if (r.p(0.5)) chol("lambda");
  int nseg = 0;
  if (r.p(pn == 9 ? 0.7 : 0.5))
  {
    nseg = 1 + r.below(4);
    double left = (pn == 9 ? 60 : 200) * disc;
    for (int i = 0; i < nseg; i++)
    {
      double len = r.p(0.1) ? r.logu(1e-3, disc) : r.u(0.2, 1) * std::min(left / nseg, 6.0);
      double ds = r.p(0.5) ? len : -len;
      int t = r.below(is_plain(kind) ? 2 : 4);
      double k = 0, s = 0;
      if (t == 1) k = r.p(0.3) ? ka : r.u(0.05, 1) * ka * (r.p(0.5) ? 1 : -1);
      if (t >= 2) { k = r.p(0.3) ? 0 : r.u(-1, 1) * ka; s = r.u(0.05, 1) * ka * ka / (2 * dm) * (r.p(0.5) ? 1 : -1); if (std::fabs(s) < 0.011) s = 0.011; if (std::fabs(s) * len > 2 * ka) s *= 2 * ka / (std::fabs(s) * len); if (std::fabs(s) < 0.011) s = 0; if (s == 0 && std::fabs(k) < 1e-3) k = 0; }
      p.push_back(fmt("seg %.17g %.17g %.17g", ds, k, s));
    }
  }
  else
  {
    double R = pn == 9 ? 2.5 : 10;
    p.push_back(fmt("goal %.17g %.17g %.17g %.17g", r.u(-R, R) / ka, r.u(-R, R) / ka, r.u(-M_PI, M_PI), r.p(0.5) ? 0 : r.u(-ka, ka)));
    nseg = 6;
  }
  int nh = r.p(0.4) ? 0 : 1 + r.below(3);
  for (int i = 0; i < nh; i++)
  {
    int j = 1 + r.below(nseg), a = r.below(2), b = r.below(2);
    p.push_back(fmt("hand %d %d %d", j, a, b));
  }
  if (r.p(0.3)) p.push_back(fmt("oom %d %d", 1 + r.below(3), 1));
  if (r.p(0.5)) p.push_back(fmt("dirty %d", r.below(256)));
  return p;
}

void exec(const std::string &prop, const Plan &plan, Out &out)
{
  Belief b(out, atoi(prop.c_str() + 1));
  b.run(plan);
}
}  // namespace sim

// Queries as plans describe them, and the pristine reference process that answers each of them alone.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "core.hpp"
namespace sim
{
namespace
{
struct Cfg
{
  int kind = 0;
  Params par;
  bool via_base = false, has_filter = false;
  Noise noise;
};
Noise noise_of(const Words &w, int i)
{
  Noise n;
  n.motion.alpha1 = w.d(i); n.motion.alpha2 = w.d(i + 1); n.motion.alpha3 = w.d(i + 2); n.motion.alpha4 = w.d(i + 3);
  n.meas.std_x = w.d(i + 4); n.meas.std_y = w.d(i + 5); n.meas.std_theta = w.d(i + 6);
  n.ctrl.k1 = w.d(i + 7); n.ctrl.k2 = w.d(i + 8); n.ctrl.k3 = w.d(i + 9);
  return n;
}
Cfg cfg_of(const Words &w)
{
  Cfg c;
  c.kind = kind_of(w.s(2));
  c.par.kappa = w.d(3);
  c.par.sigma = w.d(4);
  c.par.disc = w.d(5);
  c.via_base = w.n(6) != 0;
  return c;
}
State_With_Covariance belief(const State &s, int v = 0)
{
  State_With_Covariance b;
  b.state = s;
  for (int i = 0; i < 16; i++) b.Sigma[i] = b.Lambda[i] = b.covariance[i] = 0;
  for (int i = 0; i < 3; i++)
  {
    b.Sigma[i * 5] = 0.01 * (i + 1);
    b.Lambda[i * 5] = 0.005;
    if (v & 1) b.Sigma[i * 5] *= 3;
    if (v & 2) b.Lambda[i * 5] = 0.0125 / (i + 1);
  }
  if (v & 4)
  {
    b.Sigma[1] = b.Sigma[4] = 0.003;
    b.Lambda[2] = b.Lambda[8] = -0.001;
  }
  for (int i = 0; i < 16; i++) b.covariance[i] = b.Sigma[i] + b.Lambda[i];
  return b;
}
struct Query
{
  std::string op;
  State a, b;
  bool pool = false;
  Controls c;
  double t = 0.5;
  int v = 0;  // variant of the initial belief
};
// The result is kept until the caller has looked at the allocator, so that what is returned can be told from what is lost.
struct Result
{
  double dist = 0;
  Controls c;
  Path p;
  CovPath cp;
  State s{ 0, 0, 0, 0, 0 };
};
void run_query(const Space &sp, const Query &q, Result &r)
{
  if (q.op == "dist") r.dist = sp.distance(q.a, q.b);
  else if (q.op == "ctrl") r.c = sp.controls(q.a, q.b);
  else if (q.op == "path") r.p = sp.path(q.a, q.b);
  else if (q.op == "pathcov") r.cp = sp.path_cov(belief(q.a, q.v), q.b);
  else
  {
    const Controls *c = &q.c;
    if (!q.pool) { r.c = sp.controls(q.a, q.b); c = &r.c; }
    if (c->empty()) return;
    if (q.op == "integ") r.p = sp.integrate(q.a, *c);
    else if (q.op == "integcov") r.cp = sp.integrate_cov(belief(q.a, q.v), *c);
    else if (q.op == "interp") r.s = sp.interpolate(q.a, *c, q.t);
  }
}
uint64_t hash_of(const Result &r)
{
  Hash h;
  h.d(r.dist);
  for (auto &u : r.c) { h.d(u.delta_s); h.d(u.kappa); h.d(u.sigma); }
  h.raw(r.c.size());
  for (auto &s : r.p) hash_state(h, s);
  h.raw(r.p.size());
  for (auto &s : r.cp)
  {
    hash_state(h, s.state);
    for (int i = 0; i < 16; i++) { h.d(s.Sigma[i]); h.d(s.Lambda[i]); h.d(s.covariance[i]); }
  }
  h.raw(r.cp.size());
  hash_state(h, r.s);
  return h.h;
}
std::string brief(const Result &r)
{
  std::string s = fmt("distance %.17g, %zu controls, %zu+%zu states", r.dist, r.c.size(), r.p.size(), r.cp.size());
  if (!r.c.empty()) s += " " + show(r.c);
  if (!r.p.empty()) s += fmt(" last %s d=%g", show(r.p.back()).c_str(), r.p.back().d);
  if (!r.cp.empty()) s += fmt(" last %s cov00=%.17g", show(r.cp.back().state).c_str(), r.cp.back().covariance[0]);
  if (r.s.x != 0 || r.s.y != 0 || r.s.theta != 0) s += fmt(" state %s d=%g", show(r.s).c_str(), r.s.d);
  return s;
}
struct Ref
{
  bool ok = false;
  uint64_t hash = 0;
  uint64_t allocs = 0;
  char text[1500];
};
inline bool pristine_check(const Cfg &c, const Query &q, unsigned char dirt, Ref &ref)
{
  int fd[2];
  if (pipe(fd)) return false;
  pid_t pid = fork();
  if (pid < 0) { close(fd[0]); close(fd[1]); return false; }
  if (pid == 0)
  {
    struct itimerval it = {};
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &it, nullptr);
    Ref r;
    try
    {
      g_alloc.dirt = dirt;
      std::unique_ptr<Space> s = make_space(c.kind, c.par, c.via_base);
      if (c.has_filter) s->set_filter(c.noise);
      Result res;
      dirty_stack(dirt);
      g_alloc.arm(0);
      run_query(*s, q, res);
      r.allocs = g_alloc.count;
      g_alloc.disarm();
      r.hash = hash_of(res);
      r.ok = true;
      snprintf(r.text, sizeof r.text, "%s", brief(res).c_str());
    }
    catch (...) {}
    ssize_t n = write(fd[1], &r, sizeof r);
    (void)n;
    _exit(0);
  }
  close(fd[1]);
  size_t got = 0;
  while (got < sizeof ref)
  {
    ssize_t n = read(fd[0], (char *)&ref + got, sizeof ref - got);
    if (n <= 0) break;
    got += (size_t)n;
  }
  close(fd[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0) {}
  if (got < sizeof ref) ref.ok = false;
  return true;
}
}  // namespace
}  // namespace sim

// Common parts of the simulators: PRNG, plans, result reporting, allocator seam, uniform access to the 19 planners.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"

namespace sim
{
using steering::Control;
using steering::Controller;
using steering::Measurement_Noise;
using steering::Motion_Noise;
using steering::State;
using steering::State_With_Covariance;

// ---------------------------------------------------------------- PRNG
inline uint64_t splitmix(uint64_t &s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() { return splitmix(s); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  bool p(double q) { return u() < q; }
  double normal()
  {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
};
inline uint64_t hash_str(const char *s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}
inline uint64_t run_seed(uint64_t seed, const std::string &prop, uint64_t idx)
{
  uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ hash_str(prop.c_str());
  splitmix(s);
  s ^= idx * 0xd1342543de82ef95ull;
  return splitmix(s);
}

// ---------------------------------------------------------------- event log hash
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  void raw(uint64_t v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
  }
  void d(double v)
  {
    uint64_t b;
    if (v != v) b = 0x7ff8000000000000ull;
    else std::memcpy(&b, &v, 8);
    raw(b);
  }
  void s(const std::string &x) { raw(hash_str(x.c_str())); }
};

// ---------------------------------------------------------------- plans and results
// A plan is a list of lines "op arg arg ..."; one plan is one completely determined execution.
typedef std::vector<std::string> Plan;
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string num(double v) { return fmt("%.17g", v); }
struct Words
{
  std::vector<std::string> w;
  explicit Words(const std::string &l)
  {
    size_t i = 0;
    while (i < l.size())
    {
      while (i < l.size() && l[i] == ' ') ++i;
      size_t j = l.find(' ', i);
      if (j == std::string::npos) j = l.size();
      if (j > i) w.push_back(l.substr(i, j - i));
      i = j;
    }
  }
  std::string s(size_t i) const { return i < w.size() ? w[i] : ""; }
  double d(size_t i) const { return i < w.size() ? strtod(w[i].c_str(), nullptr) : 0.0; }
  long n(size_t i) const { return i < w.size() ? strtol(w[i].c_str(), nullptr, 10) : 0; }
};

// classes of violations listed in known_findings.json (environment variable SIM_KNOWN names a file with one per line)
bool is_known(const std::string &cls);

struct Out
{
  std::map<std::string, double> stat;   // "a.b" counters, summed over runs; names starting "max." are maximised
  std::vector<uint64_t> states;         // coverage fingerprints (distinct over all runs are counted)
  Hash log;
  std::string cls, detail;              // first violation
  double simtime = 0;
  void add(const std::string &k, double v = 1) { stat[k] += v; }
  void mx(const std::string &k, double v)
  {
    double &r = stat["max." + k];
    if (v > r) r = v;
  }
  void state(uint64_t h) { if (states.size() < 4000) states.push_back(h); }
  void viol(const std::string &c, const std::string &d)
  {
    if (is_known(c)) { add("known." + c); return; }
    if (cls.empty()) { cls = c; detail = d; }
  }
  bool bad() const { return !cls.empty(); }
};

// ---------------------------------------------------------------- allocator seam (alloc.cpp)
struct Alloc
{
  bool armed = false;          // only while code under test runs
  uint64_t count = 0;          // allocations since arm()
  uint64_t fail_at = 0;        // this one fails (1 = next), 0: none
  uint64_t fail_len = 0;       // and the following fail_len-1, too
  uint64_t failed = 0;         // failures injected since arm()
  int64_t live_blocks = 0, live_bytes = 0;
  unsigned char dirt = 0xA5;   // fresh memory is filled with this
  const char *corrupt = nullptr;  // double free, overflow, ...
  void arm(uint64_t at = 0, uint64_t len = 1) { count = failed = 0; fail_at = at; fail_len = len; armed = true; }
  void disarm() { armed = false; }
};
extern Alloc g_alloc;

// paints the stack below the caller, so that values left there by earlier calls do not matter (or do, visibly)
void dirty_stack(unsigned char c);

// ---------------------------------------------------------------- the planners
enum { NK = 19 };
extern const char *const kname[NK];
int kind_of(const std::string &name);
inline bool is_cc(int k) { return k <= 9 || k == 12; }                 // curvature continuous everywhere
inline bool is_hc(int k) { return k >= 13 && k <= 17; }                // hybrid curvature
inline bool is_plain(int k) { return k == 10 || k == 11 || k == 18; }  // Dubins, Reeds-Shepp
inline bool is_oneway(int k) { return k <= 11; }
inline int way(int k) { return k % 2 ? -1 : 1; }                       // of oneway types
// prescribed curvature at start/end: 0 zero, 1 plus/minus max, 2 as requested, -1 free
inline int start_rule(int k)
{
  static const int r[NK] = { 2, 2, 0, 0, 0, 0, 1, 1, 1, 1, -1, -1, 0, 2, 0, 0, 1, 1, -1 };
  return r[k];
}
inline int end_rule(int k)
{
  static const int r[NK] = { 2, 2, 0, 0, 1, 1, 0, 0, 1, 1, -1, -1, 0, 2, 0, 1, 0, 1, -1 };
  return r[k];
}
struct Params
{
  double kappa = 1, sigma = 1, disc = 0.1;
};
struct Noise
{
  Motion_Noise motion{ 0.1, 0.05, 0.05, 0.2 };
  Measurement_Noise meas{ 0.1, 0.1, 0.05 };
  Controller ctrl{ 1, 1, 1 };
};
typedef std::vector<Control> Controls;
typedef std::vector<State> Path;
typedef std::vector<State_With_Covariance> CovPath;
struct Space
{
  virtual ~Space() {}
  virtual double distance(const State &a, const State &b) const = 0;
  virtual Controls controls(const State &a, const State &b) const = 0;
  virtual Path path(const State &a, const State &b) const = 0;
  virtual CovPath path_cov(const State_With_Covariance &a, const State &b) const = 0;
  virtual Path integrate(const State &a, const Controls &c) const = 0;
  virtual CovPath integrate_cov(const State_With_Covariance &a, const Controls &c) const = 0;
  virtual State interpolate(const State &a, const Controls &c, double t) const = 0;
  virtual void set_filter(const Noise &n) = 0;
};
// what the library's constructor allocates is allocated while g_alloc may be armed; the wrapper itself is not counted
std::unique_ptr<Space> make_space(int kind, const Params &p, bool via_base = false);

inline void hash_state(Hash &h, const State &s) { h.d(s.x); h.d(s.y); h.d(s.theta); h.d(s.kappa); h.d(s.d); }

// ---------------------------------------------------------------- independent kinematics (not the library's)
// drives arc length L (>= 0) in direction d with initial curvature k and sharpness sig; Gauss-Legendre quadrature
inline void drive(double &x, double &y, double &th, double &k, double sig, double d, double L)
{
  if (!(L > 0)) return;
  double kmax = std::fabs(k) + std::fabs(sig) * L;
  double h0 = 0.25 / (kmax + 1e-3);
  if (h0 > 4) h0 = 4;
  int n = (int)std::ceil(L / h0);
  if (n < 1) n = 1;
  if (n > 100000) n = 100000;
  double h = L / n;
  static const double gx[5] = { -0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640 };
  static const double gw[5] = { 0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665,
                                0.2369268850561891 };
  for (int i = 0; i < n; i++)
  {
    double dx = 0, dy = 0;
    for (int g = 0; g < 5; g++)
    {
      double s = h * 0.5 * (1 + gx[g]);
      double t = th + d * (k * s + 0.5 * sig * s * s);
      dx += gw[g] * std::cos(t);
      dy += gw[g] * std::sin(t);
    }
    x += d * dx * h / 2;
    y += d * dy * h / 2;
    th += d * (k * h + 0.5 * sig * h * h);
    k += sig * h;
  }
}
inline double ang(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
inline double sgn1(double v) { return v < 0 ? -1.0 : 1.0; }
inline double length(const Controls &c)
{
  double l = 0;
  for (auto &u : c) l += std::fabs(u.delta_s);
  return l;
}
inline std::string show(const State &s)
{
  return fmt("(x=%.6g y=%.6g theta=%.6g kappa=%.6g)", s.x, s.y, s.theta, s.kappa);
}
inline std::string show(const Controls &c)
{
  std::string r = "[";
  for (auto &u : c) r += fmt("%s(%.6g %.6g %.6g)", r.size() > 1 ? " " : "", u.delta_s, u.kappa, u.sigma);
  return r + "]";
}

// ---------------------------------------------------------------- what a simulator implements
Plan gen(const std::string &prop, Rng &r, uint64_t idx);
void exec(const std::string &prop, const Plan &plan, Out &out);
int sim_main(int argc, char **argv);
}  // namespace sim

#include "core.hpp"
namespace sim
{
using namespace steering;
const char *const kname[NK] = { "CC_Dubins+", "CC_Dubins-", "CC00_Dubins+", "CC00_Dubins-", "CC0pm_Dubins+",
                                "CC0pm_Dubins-", "CCpm0_Dubins+", "CCpm0_Dubins-", "CCpmpm_Dubins+", "CCpmpm_Dubins-",
                                "Dubins+", "Dubins-", "CC00_RS", "HC_RS", "HC00_RS", "HC0pm_RS", "HCpm0_RS",
                                "HCpmpm_RS", "RS" };
int kind_of(const std::string &n)
{
  for (int i = 0; i < NK; i++)
    if (n == kname[i]) return i;
  return 0;
}
namespace
{
template <class T, class B>
struct Wrap : Space
{
  std::unique_ptr<T> own;  // destroyed as what it is ...
  B *base = nullptr;       // ... or through its base class
  T *t;
  ~Wrap() override
  {
    if (base) delete base;
  }
  double distance(const State &a, const State &b) const override { return ct().get_distance(a, b); }
  Controls controls(const State &a, const State &b) const override { return ct().get_controls(a, b); }
  Path path(const State &a, const State &b) const override { return ct().get_path(a, b); }
  CovPath path_cov(const State_With_Covariance &a, const State &b) const override
  {
    return ct().get_path_with_covariance(a, b);
  }
  Path integrate(const State &a, const Controls &c) const override { return ct().integrate(a, c); }
  CovPath integrate_cov(const State_With_Covariance &a, const Controls &c) const override
  {
    return ct().integrate_with_covariance(a, c);
  }
  State interpolate(const State &a, const Controls &c, double x) const override { return ct().interpolate(a, c, x); }
  void set_filter(const Noise &n) override { t->set_filter_parameters(n.motion, n.meas, n.ctrl); }
  const T &ct() const { return *t; }
};
template <class T, class B, class... A>
std::unique_ptr<Space> mk(bool via_base, A... a)
{
  bool was = g_alloc.armed;
  g_alloc.armed = false;
  std::unique_ptr<Wrap<T, B>> w(new Wrap<T, B>());
  g_alloc.armed = was;
  T *t = new T(a...);
  w->t = t;
  if (via_base) w->base = t;
  else w->own.reset(t);
  return std::unique_ptr<Space>(w.release());
}
}  // namespace
std::unique_ptr<Space> make_space(int k, const Params &p, bool vb)
{
  double ka = p.kappa, si = p.sigma, ds = p.disc;
  if (ds == 0.1)  // the default step and direction
    switch (k)
    {
      case 0: return mk<CC_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 2: return mk<CC00_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 4: return mk<CC0pm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 6: return mk<CCpm0_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 8: return mk<CCpmpm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 10: return mk<Dubins_State_Space, Dubins_State_Space>(vb, ka);
      case 12: return mk<CC00_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 13: return mk<HC_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 14: return mk<HC00_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 15: return mk<HC0pm_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 16: return mk<HCpm0_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 17: return mk<HCpmpm_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si);
      case 18: return mk<Reeds_Shepp_State_Space, Reeds_Shepp_State_Space>(vb, ka);
      default: break;
    }
  switch (k)
  {
    case 0: return mk<CC_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, true);
    case 1: return mk<CC_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, false);
    case 2: return mk<CC00_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, true);
    case 3: return mk<CC00_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, false);
    case 4: return mk<CC0pm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, true);
    case 5: return mk<CC0pm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, false);
    case 6: return mk<CCpm0_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, true);
    case 7: return mk<CCpm0_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, false);
    case 8: return mk<CCpmpm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, true);
    case 9: return mk<CCpmpm_Dubins_State_Space, HC_CC_State_Space>(vb, ka, si, ds, false);
    case 10: return mk<Dubins_State_Space, Dubins_State_Space>(vb, ka, ds, true);
    case 11: return mk<Dubins_State_Space, Dubins_State_Space>(vb, ka, ds, false);
    case 12: return mk<CC00_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    case 13: return mk<HC_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    case 14: return mk<HC00_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    case 15: return mk<HC0pm_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    case 16: return mk<HCpm0_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    case 17: return mk<HCpmpm_Reeds_Shepp_State_Space, HC_CC_State_Space>(vb, ka, si, ds);
    default: return mk<Reeds_Shepp_State_Space, Reeds_Shepp_State_Space>(vb, ka, ds);
  }
}
}  // namespace sim

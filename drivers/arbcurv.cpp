#include "vcg.h"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
using namespace steering;
static State st(const char *x, const char *y, const char *t, const char *k) { State s; s.x = RV(x); s.y = RV(y); s.theta = RV(t); s.kappa = RV(k); s.d = RV("d"); return s; }
template <class T> static void vp_query(const T &ss, const State &a, const State &b, bool dist)
{
  OUT("begin", 1);
  if (dist) OUT("dist", ss.get_distance(a, b));
  else {
    std::vector<Control> c = ss.get_controls(a, b);
    OUT("n", c.size());
    for (const Control &k : c) { OUT("ds", k.delta_s); OUT("k", k.kappa); OUT("s", k.sigma); }
  }
  OUT("end", 1);
}
#define ARB(n, T, ...) \
  static void run_##n(bool dist) { T ss(RV("kappa"), RV("sigma"), RV("disc") __VA_ARGS__); \
    State a = st("x1", "y1", "t1", "k1"), b = st("x2", "y2", "t2", "k2"); vp_query(ss, a, b, dist); } \
  DRIVER vp_ctl_##n() { run_##n(false); } DRIVER vp_dist_##n() { run_##n(true); }
ARB(ccd, CC_Dubins_State_Space, , BV("forwards"))
ARB(hcrs, HC_Reeds_Shepp_State_Space, )

#include "vcg.h"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
using namespace steering;
static State st(const char *x, const char *y, const char *t, const char *k) { State s; s.x = RV(x); s.y = RV(y); s.theta = RV(t); s.kappa = RV(k); s.d = RV("d"); return s; }
static void show(const std::vector<Control> &c) { OUT("n", c.size()); }
// the query proper; everything that exists when it starts must be unchanged when it ends (C21)
template <class T> static void vp_query(const T &ss, const State &a, const State &b, bool dist)
{
  OUT("begin", 1);
  if (dist) OUT("dist", ss.get_distance(a, b)); else show(ss.get_controls(a, b));
  OUT("end", 1);
}
#define PLAN(n, T, ...) \
  static void run_##n(bool dist) { T ss(RV("kappa"), RV("sigma"), RV("disc") __VA_ARGS__); \
    State a = st("x1", "y1", "t1", "k1"), b = st("x2", "y2", "t2", "k2"); vp_query(ss, a, b, dist); } \
  DRIVER vp_ctl_##n() { run_##n(false); } DRIVER vp_dist_##n() { run_##n(true); }
#define FW , BV("forwards")
PLAN(cc00d, CC00_Dubins_State_Space, FW)
PLAN(cc0pmd, CC0pm_Dubins_State_Space, FW)
PLAN(ccpm0d, CCpm0_Dubins_State_Space, FW)
PLAN(ccpmpmd, CCpmpm_Dubins_State_Space, FW)
PLAN(cc00rs, CC00_Reeds_Shepp_State_Space, )
PLAN(hc00, HC00_Reeds_Shepp_State_Space, )
PLAN(hc0pm, HC0pm_Reeds_Shepp_State_Space, )
PLAN(hcpm0, HCpm0_Reeds_Shepp_State_Space, )
PLAN(hcpmpm, HCpmpm_Reeds_Shepp_State_Space, )
DRIVER vp_snap_cfg(const Configuration &q) { OUT("x", q.x); OUT("y", q.y); OUT("t", q.theta); OUT("k", q.kappa); }
DRIVER vp_snap_circle(const HC_CC_Circle &c)
{
  OUT("x", c.start.x); OUT("y", c.start.y); OUT("t", c.start.theta); OUT("k", c.start.kappa); OUT("left", c.left); OUT("forward", c.forward); OUT("regular", c.regular); OUT("xc", c.xc); OUT("yc", c.yc);
  OUT("kappa", c.kappa); OUT("kinv", c.kappa_inv); OUT("sigma", c.sigma); OUT("radius", c.radius); OUT("mu", c.mu); OUT("sm", c.sin_mu); OUT("cm", c.cos_mu); OUT("dm", c.delta_min);
}
static Configuration pq(const char *x, const char *y, const char *t, const char *k) { return Configuration(RV(x), RV(y), RV(t), RV(k)); }
DRIVER vp_pred_equal() { OUT("res", configuration_equal(pq("x1", "y1", "t1", "k1"), pq("x2", "y2", "t2", "k2"))); }
DRIVER vp_pred_aligned() { OUT("res", configuration_aligned(pq("x1", "y1", "t1", "k1"), pq("x2", "y2", "t2", "k2"))); }
DRIVER vp_pred_on_circle() { HC_CC_Circle_Param p; p.set_param(RV("kappa"), RV("sigma"), RV("radius"), RV("mu"), RV("sin_mu"), RV("cos_mu"), RV("delta_min"));
  HC_CC_Circle c(RV("x1"), RV("y1"), BV("left"), BV("forward"), true, p); OUT("res", configuration_on_hc_cc_circle(c, pq("x2", "y2", "t2", "k2"))); }

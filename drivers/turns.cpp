#include "vcg.h"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
using namespace steering;
static HC_CC_Circle_Param param()
{
  HC_CC_Circle_Param p;
  p.set_param(RV("kappa"), RV("sigma"), RV("radius"), RV("mu"), RV("sin_mu"), RV("cos_mu"), RV("delta_min"));
  return p;
}
static Configuration start() { return Configuration(RV("x0"), RV("y0"), RV("t0"), RV("k0")); }
static Configuration goal() { return Configuration(RV("xq"), RV("yq"), RV("tq"), RV("kq")); }
static void show(const std::vector<Control> &c) { OUT("n", c.size()); for (auto &k : c) { OUT("ds", k.delta_s); OUT("k", k.kappa); OUT("s", k.sigma); } }
#define TURN(name) DRIVER vp_##name##_turn() { HC_CC_Circle c(start(), BV("left"), BV("forward"), BV("regular"), param()); Configuration q = goal(); \
  OUT("xc", c.xc); OUT("yc", c.yc); OUT("xs", c.start.x); OUT("ys", c.start.y); OUT("ts", c.start.theta); OUT("kc", c.kappa); OUT("sc", c.sigma); OUT("kic", c.kappa_inv); OUT("rc", c.radius); \
  std::vector<Control> v; name##_turn_controls(c, q, BV("order"), v); show(v); OUT("len", c.name##_turn_length(q)); }
TURN(rs)
TURN(hc)
TURN(cc)
DRIVER vp_circle_at() { HC_CC_Circle c(RV("xc"), RV("yc"), BV("left"), BV("forward"), BV("regular"), param()); OUT("xc", c.xc); OUT("yc", c.yc); OUT("kc", c.kappa); OUT("sc", c.sigma); OUT("kic", c.kappa_inv); OUT("rc", c.radius); OUT("mc", c.mu); OUT("smc", c.sin_mu); OUT("cmc", c.cos_mu); OUT("left", c.left); OUT("fw", c.forward); OUT("reg", c.regular); }
DRIVER vp_straight() { std::vector<Control> v; straight_controls(start(), goal(), v); show(v); }
DRIVER vp_empty() { std::vector<Control> v; empty_controls(v); show(v); }
static Control ctl(const char *a, const char *b, const char *c) { Control k; k.delta_s = RV(a); k.kappa = RV(b); k.sigma = RV(c); return k; }
static void outc(const Control &c) { OUT("ds", c.delta_s); OUT("k", c.kappa); OUT("s", c.sigma); }
DRIVER vp_reverse() { Control c = ctl("ds", "k", "s"); reverse_control(c); outc(c); }
DRIVER vp_subtract() { outc(subtract_control(ctl("ds1", "k1", "s1"), ctl("ds2", "k2", "s2"))); }
static void outp(const HC_CC_Circle_Param &p) { OUT("kappa", p.kappa); OUT("kinv", p.kappa_inv); OUT("sigma", p.sigma); OUT("r", p.radius); OUT("mu", p.mu); OUT("smu", p.sin_mu); OUT("cmu", p.cos_mu); OUT("dmin", p.delta_min); }
DRIVER vp_param_cc00d() { CC00_Dubins_State_Space s(RV("kappa"), RV("sigma"), RV("disc"), true); outp(s.hc_cc_circle_param_); }
#define RSP(n, T, ...) DRIVER vp_rsparam_##n() { T s(RV("kappa"), RV("sigma"), RV("disc")); outp(s.rs_circle_param_); }
RSP(hcpmpm, HCpmpm_Reeds_Shepp_State_Space) RSP(hc0pm, HC0pm_Reeds_Shepp_State_Space) RSP(hcpm0, HCpm0_Reeds_Shepp_State_Space) RSP(hc00, HC00_Reeds_Shepp_State_Space)
RSP(cc0pm, CC0pm_Dubins_State_Space) RSP(ccpm0, CCpm0_Dubins_State_Space) RSP(ccpmpm, CCpmpm_Dubins_State_Space)

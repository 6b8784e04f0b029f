#include "vcg.h"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
#include "steering_functions/utilities/utilities.hpp"
using namespace steering;
static State st() { State s; s.x = RV("x"); s.y = RV("y"); s.theta = RV("th"); s.kappa = RV("k0"); s.d = RV("d0"); return s; }
static Control ct() { Control c; c.delta_s = RV("ds"); c.kappa = RV("kc"); c.sigma = RV("sg"); return c; }
static void out(const State &s) { OUT("x", s.x); OUT("y", s.y); OUT("th", s.theta); OUT("k", s.kappa); OUT("d", s.d); }
template <class S> static void steps(S &ss)
{ // one step of length = discretization, through each public entry point
  State s = st(); std::vector<Control> cs; cs.push_back(ct());
  std::vector<State> p = ss.integrate(s, cs);
  OUT("n", p.size()); for (auto &q : p) out(q);
  State_With_Covariance b; b.state = s;
  std::vector<State_With_Covariance> pc = ss.integrate_with_covariance(b, cs);
  OUT("n", pc.size()); for (auto &q : pc) out(q.state);
  out(s); out(ss.interpolate(s, cs, 1.0));
}
DRIVER vp_step_dubins() { Dubins_State_Space ss(1.0, RV("disc"), true); steps(ss); }
DRIVER vp_step_rs() { Reeds_Shepp_State_Space ss(1.0, RV("disc")); steps(ss); }
DRIVER vp_step_hc() { CC00_Dubins_State_Space ss(1.0, 1.0, RV("disc"), true); steps(ss); }
// the primitive end-point functions
DRIVER vp_prim_clothoid() { double a, b, c, d; end_of_clothoid(RV("x"), RV("y"), RV("th"), RV("k0"), RV("sg"), RV("dir"), RV("L"), &a, &b, &c, &d); OUT("x", a); OUT("y", b); OUT("th", c); OUT("k", d); }
DRIVER vp_prim_arc() { double a, b, c; end_of_circular_arc(RV("x"), RV("y"), RV("th"), RV("k0"), RV("dir"), RV("L"), &a, &b, &c); OUT("x", a); OUT("y", b); OUT("th", c); }
DRIVER vp_prim_line() { double a, b; end_of_straight_line(RV("x"), RV("y"), RV("th"), RV("dir"), RV("L"), &a, &b); OUT("x", a); OUT("y", b); }

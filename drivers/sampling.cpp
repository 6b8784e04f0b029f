#include "vcg.h"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
using namespace steering;
extern "C" const std::vector<Control> &__vcg_controls();
extern "C" double __vcg_ix(const char *, int);
extern "C" void __vcg_space(void *);
static State st() { State s; s.x = RV("x"); s.y = RV("y"); s.theta = RV("th"); s.kappa = RV("k0"); s.d = RV("d0"); return s; }
static void out(const State &s) { OUT("x", s.x); OUT("y", s.y); OUT("th", s.theta); OUT("k", s.kappa); OUT("d", s.d); }
static void bel(State_With_Covariance &b) { b.state = st(); for (int i = 0; i < 16; i++) { b.Sigma[i] = __vcg_ix("S", i); b.Lambda[i] = __vcg_ix("La", i); b.covariance[i] = __vcg_ix("Co", i); } }
template <class S> static void plain(S &ss) { __vcg_space(&ss); State s = st(); std::vector<State> p = ss.integrate(s, __vcg_controls()); }
template <class S> static void cov(S &ss) { __vcg_space(&ss); State_With_Covariance b; bel(b); std::vector<State_With_Covariance> p = ss.integrate_with_covariance(b, __vcg_controls()); }
template <class S> static void inter(S &ss) { __vcg_space(&ss); State s = st(); out(ss.interpolate(s, __vcg_controls(), RV("t"))); }
template <class S> static void path(S &ss) { State a = st(), b; b.x = RV("x2"); b.y = RV("y2"); b.theta = RV("th2"); b.kappa = RV("k2"); b.d = RV("d2"); __vcg_space(&a); __vcg_space(&b); std::vector<State> p = ss.get_path(a, b); }
template <class S> static void pathc(S &ss) { State_With_Covariance a; bel(a); State b; b.x = RV("x2"); b.y = RV("y2"); b.theta = RV("th2"); b.kappa = RV("k2"); b.d = RV("d2"); __vcg_space(&a); __vcg_space(&b); std::vector<State_With_Covariance> p = ss.get_path_with_covariance(a, b); }
#define ALL(n, f) DRIVER vp_##n##_dubins() { Dubins_State_Space ss(1.0, RV("disc"), true); f(ss); } \
  DRIVER vp_##n##_rs() { Reeds_Shepp_State_Space ss(1.0, RV("disc")); f(ss); } \
  DRIVER vp_##n##_hc() { CC00_Dubins_State_Space ss(1.0, 1.0, RV("disc"), true); f(ss); }
ALL(plain, plain) ALL(cov, cov) ALL(inter, inter) ALL(path, path) ALL(pathc, pathc)
template <class S> static void ode(S &ss) { State s = st(); Control c; c.delta_s = RV("ds"); c.kappa = RV("kc"); c.sigma = RV("sg"); out(ss.integrate_ODE(s, c, RV("h"))); }
ALL(ode, ode)

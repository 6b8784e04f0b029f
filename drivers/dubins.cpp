#include "vcg.h"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
using namespace steering;
static State st(const char *x, const char *y, const char *t, const char *k) { State s; s.x = RV(x); s.y = RV(y); s.theta = RV(t); s.kappa = RV(k); s.d = 0; return s; }
DRIVER vp_dubins_controls()
{
  Dubins_State_Space ss(RV("kappa"), RV("disc"), BV("forwards"));
  State s1 = st("x1", "y1", "t1", "k1"), s2 = st("x2", "y2", "t2", "k2");
  std::vector<Control> c = ss.get_controls(s1, s2);
  OUT("n", c.size());
  for (auto &k : c) { OUT("ds", k.delta_s); OUT("k", k.kappa); OUT("s", k.sigma); }
  OUT("len", ss.get_distance(s1, s2));
}

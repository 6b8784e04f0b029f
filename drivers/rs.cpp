#include "vcg.h"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
using namespace steering;
static State st(const char *x, const char *y, const char *t, const char *k) { State s; s.x = RV(x); s.y = RV(y); s.theta = RV(t); s.kappa = RV(k); s.d = 0; return s; }
DRIVER vp_rs_path()
{
  Reeds_Shepp_State_Space ss(RV("kappa"), RV("disc"));
  State s1 = st("x1", "y1", "t1", "k1"), s2 = st("x2", "y2", "t2", "k2");
  Reeds_Shepp_State_Space::Reeds_Shepp_Path p = ss.reeds_shepp(s1, s2);
  OUT("len", p.length());
  OUT("dist", ss.get_distance(s1, s2));
  for (int i = 0; i < 5; ++i) { OUT("l", p.length_[i]); OUT("ty", (double)(int)p.type_[i]); }
}
DRIVER vp_rs_controls()
{
  Reeds_Shepp_State_Space ss(RV("kappa"), RV("disc"));
  State s1 = st("x1", "y1", "t1", "k1"), s2 = st("x2", "y2", "t2", "k2");
  std::vector<Control> c = ss.get_controls(s1, s2);
  OUT("n", c.size());
  for (auto &k : c) { OUT("ds", k.delta_s); OUT("k", k.kappa); OUT("s", k.sigma); }
}

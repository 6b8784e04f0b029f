#include "vcg.h"
#include "steering_functions/utilities/utilities.hpp"
using namespace steering;
extern "C" double *__vcg_array(const char *); extern "C" int __vcg_int(const char *);
DRIVER vp_twopify() { OUT("r", twopify(RV("a"))); }
DRIVER vp_pify() { OUT("r", pify(RV("a"))); }
DRIVER vp_sgn() { OUT("r", sgn(RV("a"))); }
DRIVER vp_polar() { double r, t; polar(RV("x"), RV("y"), r, t); OUT("r", r); OUT("t", t); }
DRIVER vp_dist() { OUT("r", point_distance(RV("x1"), RV("y1"), RV("x2"), RV("y2"))); }
DRIVER vp_frames()
{
  double x = RV("x"), y = RV("y"), t = RV("t"), gx, gy, lx, ly;
  global_frame_change(x, y, t, RV("px"), RV("py"), &gx, &gy); OUT("gx", gx); OUT("gy", gy);
  local_frame_change(x, y, t, gx, gy, &lx, &ly); OUT("lgx", lx); OUT("lgy", ly);
  local_frame_change(x, y, t, RV("px"), RV("py"), &lx, &ly); OUT("lx", lx); OUT("ly", ly);
  global_frame_change(x, y, t, lx, ly, &gx, &gy); OUT("glx", gx); OUT("gly", gy);
}
DRIVER vp_argmin() { OUT("r", array_index_min(__vcg_array("a"), __vcg_int("n"))); }

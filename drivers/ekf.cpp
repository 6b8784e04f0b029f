#include "vcg.h"
#include "steering_functions/filter/ekf.hpp"
#include "steering_functions/utilities/utilities.hpp"
using namespace steering;
extern "C" double __vcg_ix(const char *, int);
static State st() { State s; s.x = RV("x"); s.y = RV("y"); s.theta = RV("th"); s.kappa = RV("k0"); s.d = RV("d0"); return s; }
static Control ct() { Control c; c.delta_s = RV("ds"); c.kappa = RV("kc"); c.sigma = RV("sg"); return c; }
static void par(EKF &e)
{
  Motion_Noise m; m.alpha1 = RV("a1"); m.alpha2 = RV("a2"); m.alpha3 = RV("a3"); m.alpha4 = RV("a4");
  Measurement_Noise n; n.std_x = RV("sx"); n.std_y = RV("sy"); n.std_theta = RV("st");
  Controller c; c.k1 = RV("k1"); c.k2 = RV("k2"); c.k3 = RV("k3");
  e.set_parameters(m, n, c);
}
static void bel(State_With_Covariance &b) { b.state = st(); for (int i = 0; i < 16; i++) { b.Sigma[i] = __vcg_ix("S", i); b.Lambda[i] = __vcg_ix("La", i); b.covariance[i] = __vcg_ix("Co", i); } }
static void res(State_With_Covariance &b)
{
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { OUT("S", b.Sigma[4 * i + j]); OUT("L", b.Lambda[4 * i + j]); OUT("C", b.covariance[4 * i + j]); }
}
DRIVER vp_jacobi()
{
  EKF e; par(e); Matrix3d F(Matrix3d::Zero()); Matrix32d G(Matrix32d::Zero());
  e.get_motion_jacobi(st(), ct(), RV("L"), F, G);
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) OUT("F", F(i, j)); for (int j = 0; j < 2; j++) OUT("G", G(i, j)); }
}
DRIVER vp_predict() { EKF e; par(e); State_With_Covariance b, r; bel(b); e.predict(b, ct(), RV("L"), r); res(r); res(b); }
DRIVER vp_update() { EKF e; par(e); State_With_Covariance b, r; bel(b); e.update(b, r); res(r); res(b); }

#include "oracle.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
static double sg(double x) { return x < 0 ? -1 : 1; }
static double mag(Rng &r) { switch (r.n(5)) { case 0: return 0; case 1: return std::pow(10, r.u(-5, -3)); case 2: return std::pow(10, r.u(-3.9, -1)); default: return std::pow(10, r.u(-1, 0.7)); } }
// space disc dir kappa sigma x y th
static V g05(Rng &r)
{
  int sp = r.n(3);
  double L = r.p(0.2) ? std::pow(10, r.u(-6, -2)) : r.p(0.2) ? r.u(0, 20) : r.u(0.001, 2);
  double k = mag(r) * (r.p(.5) ? 1 : -1), s = sp == 2 ? mag(r) * (r.p(.5) ? 1 : -1) : 0;
  return {(double)sp, L, r.p(.5) ? 1.0 : -1.0, k, s, r.u(-5, 5), r.u(-5, 5), special_angle(r)};
}
template <class S> static std::string one(S &ss, const V &v)
{
  State a = mk(v[5], v[6], v[7], 0.3, 0.25);
  Control c; c.delta_s = v[1] * v[2]; c.kappa = v[3]; c.sigma = v[4];
  std::vector<Control> cs{c};
  Control e = c; if (fabs(e.sigma) <= 1e-4) e.sigma = 0; if (e.sigma == 0 && fabs(e.kappa) <= 1e-4) e.kappa = 0;
  Q q = flow({a.x, a.y, a.theta, 0}, e);
  double k1 = v[3] + (fabs(v[4]) > 1e-4 ? v[4] * v[1] : 0), tol = 2e-7 * (1 + v[1]) / (fabs(e.sigma) > 0 ? std::min(1.0, sqrt(fabs(e.sigma))) : 1) + (e.kappa != 0 && e.sigma == 0 ? 1e-11 / fabs(e.kappa) : 0);
  auto bad = [&](const State &p, const char *w) -> std::string {
    if (!(std::hypot(p.x - q.x, p.y - q.y) <= tol)) return fmt("%s: (%.9g,%.9g) instead of (%.9g,%.9g)", w, p.x, p.y, q.x, q.y);
    if (!(fabs(angdiff(p.theta, q.t)) <= 1e-8 * (1 + v[1] * v[1]))) return fmt("%s: heading %.9g instead of %.9g", w, p.theta, q.t);
    if (!(fabs(p.kappa - k1) <= 1e-9 * (1 + fabs(k1)) + (fabs(v[4]) <= 1e-4 ? 1e-4 * v[1] : 0))) return fmt("%s: curvature %.9g instead of %.9g", w, p.kappa, k1);
    if (p.d != v[2]) return fmt("%s: direction %g", w, p.d);
    return "";
  };
  auto p = ss.integrate(a, cs);
  std::string w = p.size() < 2 ? "no sample" : bad(p.back(), "integrate"); if (!w.empty()) return w;
  w = bad(ss.interpolate(a, cs, 1.0), "interpolate"); if (!w.empty()) return w;
  State_With_Covariance b; b.state = a;
  auto pc = ss.integrate_with_covariance(b, cs);
  return pc.size() < 2 ? "no sample" : bad(pc.back().state, "integrate_with_covariance");
}
static std::string c05(const V &v)
{
  Motion_Noise m{0.1, 0.1, 0.1, 0.1}; Measurement_Noise n{0.1, 0.1, 0.1}; Controller c{1, 1, 1};
  if (v[0] == 0) { Dubins_State_Space s(1.0, v[1], true); s.set_filter_parameters(m, n, c); return one(s, v); }
  if (v[0] == 1) { Reeds_Shepp_State_Space s(1.0, v[1]); s.set_filter_parameters(m, n, c); return one(s, v); }
  CC00_Dubins_State_Space s(1.0, 1.0, v[1], true); s.set_filter_parameters(m, n, c); return one(s, v);
}
static void fresnel_ref(double s, double &S, double &C)
{
  double a = fabs(s); static const double gx[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, gw[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
  int n = 2 + (int)(a * a * 1.2); long double c = 0, t = 0;
  for (int i = 0; i < n; i++) { double lo = a * i / n, hi = a * (i + 1) / n, m = .5 * (lo + hi), h = .5 * (hi - lo); for (int j = 0; j < 5; j++) for (int e = -1; e <= 1; e += 2) { long double u = m + e * h * gx[j], q = PI_ / 2 * u * u; c += gw[j] * h * cosl(q); t += gw[j] * h * sinl(q); } }
  S = s < 0 ? -t : t; C = s < 0 ? -c : c;
}
static V g06(Rng &r) { return {(r.p(.5) ? 1 : -1) * (r.p(.3) ? std::pow(10, r.u(-6, 0)) : r.p(.3) ? sqrt(16 / PI_) + r.u(-.2, .2) : r.p(.2) ? r.u(0, 40) : r.u(0, 6))}; }
static std::string c06(const V &v)
{
  double S, C, s, c, s2, c2; fresnel(v[0], S, C); fresnel(-v[0], s2, c2); fresnel_ref(v[0], s, c);
  if (!(fabs(S - s) <= 2e-8 && fabs(C - c) <= 2e-8)) return fmt("S,C = %.12g,%.12g instead of %.12g,%.12g", S, C, s, c);
  if (S != -s2 || C != -c2) return "not odd";
  return "";
}
// which a b c d e / array
static V g07(Rng &r)
{
  V v; int w = r.n(6); v.push_back(w);
  if (w == 5) { int n = 1 + r.n(r.p(.5) ? 6 : 40); for (int i = 0; i < n; i++) v.push_back(r.p(.5) ? r.n(4) - 1 : r.u(-5, 5)); return v; }
  for (int i = 0; i < 5; i++) v.push_back(r.p(.3) ? (r.n(33) - 16) * PI_ / 4 : r.p(.2) ? r.n(5) - 2 : r.u(-30, 30));
  return v;
}
static std::string c07(const V &v)
{
  const double *a = &v[1]; double e = 1e-9;
  switch ((int)v[0]) {
    case 0: { double t = twopify(a[0]); if (!(t >= -e && t <= 2 * PI_ + e && fabs(angdiff(t, a[0])) < e)) return fmt("twopify(%.17g)=%.17g", a[0], t); if (t >= 2 * PI_ && fabs(remainder(a[0], 2 * PI_)) > 1e-6) return "twopify range"; break; }
    case 1: { double t = pify(a[0]); if (!(fabs(t) <= PI_ + e && fabs(angdiff(t, a[0])) < e)) return fmt("pify(%.17g)=%.17g", a[0], t); break; }
    case 2: if (sgn(a[0]) != (a[0] < 0 ? -1 : 1) || sgn(0.0) != 1) return "sgn"; break;
    case 3: { double r, t; polar(a[0], a[1], r, t); if (!(r >= 0 && fabs(t) <= PI_ + e && fabs(r * cos(t) - a[0]) < e * (1 + r) && fabs(r * sin(t) - a[1]) < e * (1 + r))) return "polar"; if (fabs(point_distance(a[0], a[1], a[2], a[3]) - std::hypot(a[0] - a[2], a[1] - a[3])) > e * 100) return "point_distance"; break; }
    case 4: { double gx, gy, lx, ly; global_frame_change(a[0], a[1], a[2], a[3], a[4], &gx, &gy);
      if (!(fabs(gx - (a[0] + a[3] * cos(a[2]) - a[4] * sin(a[2]))) < 1e-8 && fabs(gy - (a[1] + a[3] * sin(a[2]) + a[4] * cos(a[2]))) < 1e-8)) return "global_frame_change";
      local_frame_change(a[0], a[1], a[2], gx, gy, &lx, &ly); if (!(fabs(lx - a[3]) < 1e-8 && fabs(ly - a[4]) < 1e-8)) return "frame changes not inverse"; break; }
    default: { V b(v.begin() + 1, v.end()); int k = array_index_min(b.data(), b.size()), j = 0; for (int i = 1; i < (int)b.size(); i++) if (b[i] < b[j]) j = i; if (k != j) return fmt("index of minimum %d instead of %d", k, j); }
  }
  return "";
}
// x y th k0 L dir sigma
static V g08(Rng &r) { return {r.u(-5, 5), r.u(-5, 5), special_angle(r), (r.p(.5) ? 1 : -1) * (r.p(.2) ? 0 : r.p(.2) ? std::pow(10, r.u(-3, -1)) : r.u(0.05, 2)), r.p(.3) ? r.u(0, 4) : r.u(0, 1), r.p(.5) ? 1.0 : -1.0, r.p(.3) ? 0 : (r.p(.5) ? 1 : -1) * r.u(0.05, 3)}; }
static std::string c08(const V &v)
{
  EKF e; Matrix3d F(Matrix3d::Zero()); Matrix32d G(Matrix32d::Zero());
  State s = mk(v[0], v[1], v[2], v[3]); Control c; c.delta_s = v[5] * 7; c.kappa = v[3] * 0.5; c.sigma = v[6];
  e.get_motion_jacobi(s, c, v[4], F, G);
  auto f = [&](int i, double dth, double ds, double dk) { Control m; m.delta_s = v[5] * v[4]; m.sigma = v[6]; m.kappa = v[3] + dk; m.delta_s += ds; if (m.delta_s * v[5] < 0) m.delta_s = 0; Q q = flow({v[0], v[1], v[2] + dth, 0}, m); return i == 0 ? q.x : i == 1 ? q.y : q.t; };
  double h = 1e-5; if (v[4] < 1e-3) return "";
  bool line = v[6] == 0 && fabs(v[3]) <= 1e-4;
  for (int i = 0; i < 3; i++) {
    double dt = (f(i, h, 0, 0) - f(i, -h, 0, 0)) / (2 * h), ds = (f(i, 0, h, 0) - f(i, 0, -h, 0)) / (2 * h), dk = (f(i, 0, 0, h) - f(i, 0, 0, -h)) / (2 * h);
    if (line && i < 2) dk = 0;
    double tol = 1e-5 * (1 + v[4] * v[4]) * (1 + 1 / std::max(fabs(v[6]), 0.05));
    if (v[6] == 0 && v[3] != 0) tol += 1e-8 / (v[3] * v[3]);
    for (int j = 0; j < 2; j++) if (F(i, j) != (i == j ? 1 : 0)) return fmt("F(%d,%d)=%g", i, j, F(i, j));
    if (!(fabs(F(i, 2) - dt) <= tol)) return fmt("F(%d,2)=%.9g, derivative %.9g", i, F(i, 2), dt);
    if (!(fabs(G(i, 0) - ds) <= tol)) return fmt("G(%d,0)=%.9g, derivative %.9g", i, G(i, 0), ds);
    if (!(fabs(G(i, 1) - dk) <= tol)) return fmt("G(%d,1)=%.9g, derivative %.9g", i, G(i, 1), dk);
  }
  return "";
}
static V g09(Rng &r)
{
  V v = g08(r);
  for (int m = 0; m < 2; m++) { double A[9]; for (double &a : A) a = r.u(-1, 1); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += A[3 * i + k] * A[3 * j + k]; v.push_back(s); } }
  for (int i = 0; i < 4; i++) v.push_back(r.u(0, .5)); for (int i = 0; i < 3; i++) v.push_back(r.u(.05, 1)); for (int i = 0; i < 3; i++) v.push_back(r.u(-1, 2));
  return v;
}
static std::string c09(const V &v)
{
  EKF e; const double *p = &v[19];
  Motion_Noise mn{p[0], p[1], p[2], p[3]}; Measurement_Noise me{p[4], p[5], p[6]}; Controller co{p[7], p[8], p[9]}; e.set_parameters(mn, me, co);
  State_With_Covariance b, r, u; b.state = mk(v[0], v[1], v[2], v[3]); Control c; c.delta_s = v[5] * 7; c.kappa = v[3] * 0.5; c.sigma = v[6];
  Matrix3d S, L, F(Matrix3d::Zero()); Matrix32d G(Matrix32d::Zero());
  for (int i = 0, k = 0; i < 3; i++) for (int j = i; j < 3; j++, k++) { S(i, j) = S(j, i) = v[7 + k]; L(i, j) = L(j, i) = v[13 + k]; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { b.Sigma[4 * i + j] = S(i, j); b.Lambda[4 * i + j] = L(i, j); b.covariance[4 * i + j] = 77; }
  e.get_motion_jacobi(b.state, c, v[4], F, G);
  Eigen::Matrix2d Qm = Eigen::Matrix2d::Zero(); Qm(0, 0) = p[0] * v[4] * v[4] + p[1] * v[3] * v[3]; Qm(1, 1) = p[2] * v[4] * v[4] + p[3] * v[3] * v[3];
  Matrix23d K = Matrix23d::Zero(); K(0, 0) = p[7]; K(1, 1) = p[8]; K(1, 2) = v[5] * p[9];
  Matrix3d R; R << cos(v[2]), sin(v[2]), 0, -sin(v[2]), cos(v[2]), 0, 0, 0, 1;
  Matrix3d Sp = F * S * F.transpose() + G * Qm * G.transpose(), Fk = F - G * K * R, Lp = Fk * L * Fk.transpose();
  auto cmp = [](const double *a, const Matrix3d &m, const char *w) -> std::string { double sc = 1 + m.norm(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabs(a[4 * i + j] - m(i, j)) <= 1e-8 * sc)) return fmt("%s(%d,%d) = %.9g instead of %.9g", w, i, j, a[4 * i + j], m(i, j)); return ""; };
  e.predict(b, c, v[4], r); std::string w;
  if (!(w = cmp(r.Sigma, Sp, "Sigma_pred")).empty() || !(w = cmp(r.Lambda, Lp, "Lambda_pred")).empty() || !(w = cmp(r.covariance, Sp + Lp, "covariance_pred")).empty()) return w;
  Matrix3d Rz = Matrix3d::Zero(); for (int i = 0; i < 3; i++) Rz(i, i) = p[4 + i] * p[4 + i];
  Matrix3d Lg = S * (S + Rz).inverse(), M = Matrix3d::Identity() - Lg, Sc = M * S * M.transpose() + Lg * Rz * Lg.transpose(), Lc = L + Lg * S;
  e.update(b, u);
  if (!(w = cmp(u.Sigma, Sc, "Sigma_corr")).empty() || !(w = cmp(u.Lambda, Lc, "Lambda_corr")).empty() || !(w = cmp(u.covariance, Sc + Lc, "covariance_corr")).empty()) return w;
  return "";
}
static Reg r5("C05", g05, c05), r6("C06", g06, c06), r7("C07", g07, c07), r8("C08", g08, c08), r9("C09", g09, c09);

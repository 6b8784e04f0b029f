#include "oracle.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
// input: what kappa sigma left forward regular order delta x0 y0 t0 ; what: 0 rs 1 hc 2 cc 3 straight 4 reverse/subtract
namespace {
std::string c13(const V &v)
{
  int w = (int)v[0]; double k = v[1], s = v[2], x0 = v[8], y0 = v[9], t0 = v[10], de = v[7]; bool l = v[3] != 0, f = v[4] != 0, re = v[5] != 0, o = v[6] != 0;
  std::vector<Control> cs;
  if (w == 3) { double L = (f ? 1 : -1) * de; Configuration a(x0, y0, t0, 0), b(x0 + L * cos(t0), y0 + L * sin(t0), t0, 0); straight_controls(a, b, cs);
    if (cs.size() != 1 || fabs(cs[0].delta_s - L) > 1e-9 * (1 + fabs(L) + fabs(x0) + fabs(y0)) || cs[0].kappa != 0 || cs[0].sigma != 0) return fmt("straight_controls: %.9g instead of %.9g", cs.size() ? cs[0].delta_s : NAN, L);
    std::vector<Control> e; empty_controls(e); if (e.size() != 1 || e[0].delta_s != 0 || e[0].kappa != 0 || e[0].sigma != 0) return "empty_controls is not an empty motion"; return ""; }
  if (w == 4) { Control c; c.delta_s = (f ? 1 : -1) * de; c.kappa = l ? k : -k; c.sigma = re ? s : -s; Q q = flow({x0, y0, t0, c.kappa}, c); Control r = c; reverse_control(r); Q p = flow(q, r);
    if (std::hypot(p.x - x0, p.y - y0) > 1e-6 || fabs(angdiff(p.t, t0)) > 1e-6 || fabs(p.k - c.kappa) > 1e-6) return "reverse_control does not lead back";
    Control b = c; b.delta_s *= o ? 0.3 : 1.7; Control m = subtract_control(c, b);
    double sg = (m.delta_s < 0 ? -1 : 1) * (c.delta_s < 0 ? -1 : 1) * c.sigma;
    if (fabs(m.delta_s - (c.delta_s - b.delta_s)) > 1e-9 || fabs(m.kappa - c.kappa) > 1e-9 || fabs(m.sigma - sg) > 1e-9) return "subtract_control is not the difference";
    return ""; }
  CC00_Dubins_State_Space ss(k, s, 0.1, true); HC_CC_Circle_Param p = ss.hc_cc_circle_param_;
  // reference parameters from the exact clothoid
  { Control c; c.delta_s = k / s; c.kappa = 0; c.sigma = s; Q q = flow({0, 0, 0, 0}, c); double xc = q.x - sin(q.t) / k, yc = q.y + cos(q.t) / k;
    if (k / s > 1e-4 && (fabs(p.radius * p.sin_mu - xc) > 1e-6 * (1 + fabs(xc)) || fabs(p.radius * p.cos_mu - yc) > 1e-6 * (1 + fabs(yc)) || fabs(p.delta_min - k * k / (2 * s)) > 1e-9)) return "turning circle parameters are wrong"; }
  if (w == 0) p.set_param(k, std::numeric_limits<double>::max(), 1 / k, 0, 0, 1, 0);
  int a = l ? 1 : -1, b = f ? 1 : -1;
  Configuration st(x0, y0, t0, w == 0 ? a * k : 0);
  HC_CC_Circle c(st, l, f, re, p);
  double cx = x0 + b * p.radius * p.sin_mu * cos(t0) - a * p.radius * p.cos_mu * sin(t0), cy = y0 + b * p.radius * p.sin_mu * sin(t0) + a * p.radius * p.cos_mu * cos(t0), tq = t0 + a * b * de, lx, ly;
  if (w == 2) { lx = b * p.radius * p.sin_mu; ly = -a * p.radius * p.cos_mu; } else { lx = 0; ly = -a / k; }
  Configuration q(cx + lx * cos(tq) - ly * sin(tq), cy + lx * sin(tq) + ly * cos(tq), tq, w == 2 ? 0 : a * k);
  double len;
  if (w == 0) { rs_turn_controls(c, q, o, cs); len = c.rs_turn_length(q); } else if (w == 1) { hc_turn_controls(c, q, o, cs); len = c.hc_turn_length(q); } else { cc_turn_controls(c, q, o, cs); len = c.cc_turn_length(q); }
  if (!finite_all(cs)) return "controls are not finite";
  Q from = {st.x, st.y, t0, st.kappa}, to = {q.x, q.y, tq, q.kappa}; if (!o) std::swap(from, to);
  Q e = flow_all(from, cs); double tot = 0, pk = from.k; for (auto &z : cs) tot += fabs(z.delta_s);
  double tol = 1e-5 * (1 + p.radius + tot), ta = 1e-5;
  if (w == 2 && de < 1.1e-4) { ta = 1.2e-4; tol += 1e-4 * (tot + p.radius); }
  const char *nm[] = {"rs", "hc", "cc"};
  if (std::hypot(e.x - to.x, e.y - to.y) > tol || fabs(angdiff(e.t, to.t)) > ta) return fmt("%s turn (left %d forward %d regular %d order %d, deflection %.9g) ends at %.9g %.9g %.9g instead of %.9g %.9g %.9g", nm[w], l, f, re, o, de, e.x, e.y, e.t, to.x, to.y, to.t);
  for (auto &z : cs) { if (fabs(z.kappa - pk) > 1e-6 * (1 + k)) return fmt("%s turn: curvature jumps from %.9g to %.9g", nm[w], pk, z.kappa); pk = z.kappa + z.sigma * fabs(z.delta_s);
    if (fabs(z.sigma) > s * (1 + 1e-9) + 1e-12) return fmt("%s turn: sharpness %.9g exceeds %.9g", nm[w], z.sigma, s); }
  if (fabs(pk - to.k) > 1e-6 * (1 + k)) return fmt("%s turn ends with curvature %.9g instead of %.9g", nm[w], pk, to.k);
  if (fabs(len - tot) > tol) return fmt("%s turn: reported length %.9g, controls %.9g", nm[w], len, tot);
  return "";
}
V g13(Rng &r)
{
  double k = r.p(0.4) ? 1 : std::pow(10, r.u(-1, 0.7)), s; switch (r.n(3)) { case 0: s = k * k; break; case 1: s = k * k / (2 * r.u(0.02, 7)); break; default: s = k * k * std::pow(10, r.u(-0.8, 1)); }
  double dm = k * k / (2 * s), de;
  switch (r.n(6)) { case 0: de = r.u(0, 2 * dm); break; case 1: de = dm + r.u(-1e-2, 1e-2); break; case 2: de = 2 * dm + r.u(-1e-2, 1e-2); break; case 3: de = r.n(8) * PI_ / 4 + r.u(-1e-3, 1e-3); break; case 4: de = 4.5948 + r.u(-1e-2, 1e-2); break; default: de = r.u(0, 2 * PI_); }
  if (r.p(0.05)) de = r.u(0, 3e-4);
  de -= 2 * PI_ * std::floor(de / (2 * PI_)); if (de > 2 * PI_ - 1e-9) de = 0;
  return {(double)r.n(5), k, s, (double)r.n(2), (double)r.n(2), (double)r.n(2), (double)r.n(2), de, r.u(-5, 5), r.u(-5, 5), special_angle(r)};
}
Reg r13("C13", g13, c13);
}

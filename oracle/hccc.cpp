#include "oracle.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
// input: space kappa sigma forwards x1 y1 t1 k1 x2 y2 t2 k2
namespace {
const char *NM[] = {"CC00_Dubins", "CC0pm_Dubins", "CCpm0_Dubins", "CCpmpm_Dubins", "HC00_Reeds_Shepp", "HC0pm_Reeds_Shepp", "HCpm0_Reeds_Shepp", "HCpmpm_Reeds_Shepp", "CC00_Reeds_Shepp", "CC_Dubins", "HC_Reeds_Shepp"};
// does the space promise zero (0) or maximum (1) curvature at start / end
const int PM[][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 0}};
struct Res { std::vector<Control> c; double dist; };
template <class S> Res go(const S &s, const State &a, const State &b) { return {s.get_controls(a, b), s.get_distance(a, b)}; }
Res solve(const V &v)
{
  State a = mk(v[4], v[5], v[6], v[7]), b = mk(v[8], v[9], v[10], v[11]);
  bool f = v[3] != 0;
  switch ((int)v[0]) {
    case 0: return go(CC00_Dubins_State_Space(v[1], v[2], 0.1, f), a, b);
    case 1: return go(CC0pm_Dubins_State_Space(v[1], v[2], 0.1, f), a, b);
    case 2: return go(CCpm0_Dubins_State_Space(v[1], v[2], 0.1, f), a, b);
    case 3: return go(CCpmpm_Dubins_State_Space(v[1], v[2], 0.1, f), a, b);
    case 4: return go(HC00_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
    case 5: return go(HC0pm_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
    case 6: return go(HCpm0_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
    case 7: return go(HCpmpm_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
    case 8: return go(CC00_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
    case 9: return go(CC_Dubins_State_Space(v[1], v[2], 0.1, f), a, b);
    default: return go(HC_Reeds_Shepp_State_Space(v[1], v[2], 0.1), a, b);
  }
}
V gen(Rng &r, int lo, int hi)
{
  double k = r.p(0.4) ? 1.0 : std::pow(10, r.u(-0.7, 0.5)), s;
  switch (r.n(4)) { case 0: s = k * k; break; case 1: s = k * k / (2 * r.u(0.02, 3)); break; case 2: s = k * k / (2 * r.u(0.3, 1.2)); break; default: s = k * k * std::pow(10, r.u(-0.8, 1)); }
  double ki = 1 / k, x = r.p(0.3) ? 0 : r.u(-5, 5), y = r.p(0.3) ? 0 : r.u(-5, 5), t1 = special_angle(r), t2 = r.p(0.2) ? t1 : special_angle(r);
  double L = r.p(0.5) ? r.u(0, 12) * ki : special_len(r, ki), ph = r.p(0.3) ? t1 + (r.n(8) * PI_ / 4) : r.u(-PI_, PI_);
  auto kk = [&]() { switch (r.n(6)) { case 0: return 0.0; case 1: return k; case 2: return -k; default: return r.u(-k, k); } };
  V v = {(double)(lo + r.n(hi - lo)), k, s, (double)r.n(2), x, y, t1, kk(), x + L * std::cos(ph), y + L * std::sin(ph), t2, kk()};
  if (r.p(0.15)) {  // goal reached from the start by a few random admissible pieces
    Q q{v[4], v[5], v[6], v[7]};
    for (int i = 0, n = 1 + r.n(3); i < n; i++) {
      Control c; c.delta_s = (r.p(0.5) ? 1 : -1) * r.u(0, 3) * ki; c.sigma = r.p(0.4) ? 0 : (r.p(0.5) ? s : -s); c.kappa = q.k;
      if (c.sigma != 0) { double lim = c.sigma > 0 ? (k - q.k) / s : (q.k + k) / s; if (std::fabs(c.delta_s) > lim || r.p(0.3)) c.delta_s = c.delta_s < 0 ? -lim : lim; }
      q = flow(q, c);
    }
    v[8] = q.x; v[9] = q.y; v[10] = q.t; v[11] = std::max(-k, std::min(k, q.k));
  }
  if (r.p(0.06)) {  // goal on (or concentric with) a turning circle of the start
    CC00_Dubins_State_Space ss(k, s, 0.1, true);
    Configuration q0(v[4], v[5], v[6], 0);
    HC_CC_Circle_Param rp; rp.set_param(k, 1e300, ki, 0, 0, 1, 0);
    HC_CC_Circle c(q0, r.n(2), r.n(2), true, r.n(2) ? ss.hc_cc_circle_param_ : rp);
    double rr = r.n(2) ? ki : ss.hc_cc_circle_param_.radius, mu = rr == ki ? 0 : ss.hc_cc_circle_param_.mu, a = r.n(2) ? 1 : -1, b = r.n(2) ? 1 : -1;
    double lx = -b * rr * sin(mu), ly = -a * rr * cos(mu);
    v[8] = c.xc + cos(t2) * lx - sin(t2) * ly; v[9] = c.yc + sin(t2) * lx + cos(t2) * ly;
  }
  if (r.p(0.03)) { v[8] = v[4]; v[9] = v[5]; v[10] = v[6]; }
  return v;
}
const double POS = 2e-3, ANG = 2e-3;
std::string sane(const V &v, const Res &r)
{
  if (r.c.empty()) return fmt("%s: no controls", NM[(int)v[0]]);
  if (!finite_all(r.c)) return fmt("%s: controls not finite", NM[(int)v[0]]);
  double L = 0; for (auto &c : r.c) L += fabs(c.delta_s);
  if (L > 1e9) return fmt("%s: length %g", NM[(int)v[0]], L);
  return "";
}
bool trivial(const Res &r) { double L = 0; for (auto &c : r.c) L += fabs(c.delta_s); return L < 1e-9; }
std::string reach(const V &v)
{
  Res r = solve(v);
  std::string w = sane(v, r); if (!w.empty()) return w;
  int sp = (int)v[0];
  double k0 = r.c.front().kappa;
  Q q{v[4], v[5], v[6], 0};
  for (auto &c : r.c) q = flow(q, c);
  double sc = 1 + fabs(v[8] - v[4]) + fabs(v[9] - v[5]);
  for (auto &c : r.c) sc += 0.15 * fabs(c.delta_s);  // a heading guard of 1e-4 acts over the length
  if (!(std::hypot(q.x - v[8], q.y - v[9]) <= POS * sc)) return fmt("%s: ends at (%.9g,%.9g), goal (%.9g,%.9g)", NM[sp], q.x, q.y, v[8], v[9]);
  if (!(fabs(angdiff(q.t, v[10])) <= ANG)) return fmt("%s: ends with heading %.9g, goal %.9g", NM[sp], q.t, v[10]);
  if (trivial(r)) return "";
  double kt = 2e-3 * (1 + v[1]), k1 = 0, kl = q.k;
  if (sp < 9) {
    if (fabs(fabs(k0) - PM[sp][0] * v[1]) > kt) return fmt("%s: starts with curvature %.9g", NM[sp], k0);
    if (fabs(fabs(kl) - PM[sp][1] * v[1]) > kt) return fmt("%s: ends with curvature %.9g", NM[sp], kl);
  } else {
    if (fabs(k0 - v[7]) > kt) return fmt("%s: starts with curvature %.9g, state has %.9g", NM[sp], k0, v[7]);
    if (fabs(kl - v[11]) > kt) return fmt("%s: ends with curvature %.9g, goal has %.9g", NM[sp], kl, v[11]);
  }
  (void)k1;
  if (sp < 4 || sp == 9) for (auto &c : r.c) if ((v[3] != 0 ? 1 : -1) * c.delta_s < -1e-3) if (sp < 4) return fmt("%s: drives in the wrong direction (%.9g)", NM[sp], c.delta_s);
  return "";
}
std::string c17(const V &v)
{
  std::string w = reach(v); if (!w.empty()) return w;
  Res r = solve(v);
  double L = 0; for (auto &c : r.c) L += fabs(c.delta_s);
  if (!(fabs(L - r.dist) <= 2e-3 * (1 + L))) return fmt("%s: distance %.9g, length of the controls %.9g", NM[(int)v[0]], r.dist, L);
  return "";
}
std::string c19(const V &v)
{
  Res r = solve(v);
  std::string w = sane(v, r); if (!w.empty()) return w;
  double L = 0; for (auto &c : r.c) L += fabs(c.delta_s);
  if (!(fabs(L - r.dist) <= 2e-3 * (1 + L))) return fmt("%s: distance %.9g, length of the controls %.9g", NM[(int)v[0]], r.dist, L);
  return "";
}
std::string c18(const V &v)
{
  Res r = solve(v);
  std::string w = sane(v, r); if (!w.empty()) return w;
  int sp = (int)v[0];
  double kt = 2e-3 * (1 + v[1]), pk = 0; int ld = 0; bool first = true, rev = false; std::string jump;
  bool hc = sp == 4 || sp == 5 || sp == 6 || sp == 7 || sp == 10;
  for (auto &c : r.c) {
    double L = fabs(c.delta_s), k0 = c.kappa, k1 = c.kappa + c.sigma * L;
    if (fabs(k0) > v[1] + kt || fabs(k1) > v[1] + kt) return fmt("%s: curvature %.9g..%.9g exceeds %.9g", NM[sp], k0, k1, v[1]);
    if (fabs(c.sigma) > v[2] * (1 + 1e-3) + 1e-3 && L > 1e-6) return fmt("%s: sharpness %.9g exceeds %.9g", NM[sp], c.sigma, v[2]);
    
    int d = std::signbit(c.delta_s) ? -1 : 1;
    // reversals may have zero length: rev = the direction changes anywhere between the last and this non-zero segment
    if ((!first && d != ld) || (L < 1e-7 && c.kappa == 0 && c.sigma == 0)) rev = true;  // a straight of zero length has no direction
    ld = d; 
    if (!first && fabs(k0 - pk) > kt) jump = fmt("%s: curvature jumps from %.9g to %.9g", NM[sp], pk, k0);
    pk = k1; first = false;
    if (L > 1e-7) { if (!jump.empty() && !(hc && rev)) return jump; jump.clear(); rev = false; }
  }
  return "";
}
Reg r14("C14", [](Rng &r) { return gen(r, 0, 4); }, reach), r15("C15", [](Rng &r) { return gen(r, 4, 8); }, reach), r16("C16", [](Rng &r) { return gen(r, 8, 9); }, reach),
    r17("C17", [](Rng &r) { return gen(r, 9, 11); }, c17), r18("C18", [](Rng &r) { return gen(r, 0, 11); }, c18), r19("C19", [](Rng &r) { return gen(r, 0, 9); }, c19);
}

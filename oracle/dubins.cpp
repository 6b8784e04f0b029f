#include "oracle.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
// input: kappa, forwards, x1 y1 t1 x2 y2 t2
static V gen(Rng &r)
{
  double k = r.p(0.3) ? 1.0 : std::pow(10, r.u(-1.5, 1.0)), ki = 1 / k;
  double x = r.p(0.3) ? 0 : r.u(-10, 10), y = r.p(0.3) ? 0 : r.u(-10, 10), t1 = special_angle(r), t2 = r.p(0.2) ? t1 : special_angle(r);
  double L = special_len(r, ki), ph = r.p(0.3) ? t1 + (r.n(8) * PI_ / 4) : r.u(-PI_, PI_);
  return {k, (double)r.n(2), x, y, t1, x + L * std::cos(ph), y + L * std::sin(ph), t2};
}
static double m2(double x) { x = std::fmod(x, 2 * PI_); if (x < 0) x += 2 * PI_; return x; }
static double best6(double d, double a, double b)
{
  double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), best = 1e300;
  auto tw = [](double x) { double v = m2(x); return v > 2 * PI_ - 1e-7 ? 0.0 : v; };  // rounding guard: full turn == no turn for the *bound* only
  (void)tw;
  for (int s1 = -1; s1 <= 1; s1 += 2)
    for (int s2 = -1; s2 <= 1; s2 += 2) {
      double ux = d - s2 * sb + s1 * sa, uy = s2 * cb - s1 * ca, h2 = ux * ux + uy * uy, p2 = s1 == s2 ? h2 : h2 - 4;
      if (p2 < 1e-9) continue;
      double p = sqrt(p2), th = atan2(uy, ux) + (s1 == s2 ? 0 : atan2(2.0 * s1, p)), t = m2(s1 * (th - a)), q = m2(s2 * (b - th));
      best = std::min(best, t + p + q);
    }
  for (int s = -1; s <= 1; s += 2) {
    double t = (6 - d * d + 2 * (ca * cb + sa * sb) - s * 2 * d * (sa - sb)) / 8;
    if (fabs(t) >= 1 - 1e-9) continue;
    double p = 2 * PI_ - acos(t), th = atan2(s * (cb - ca), d + s * (sa - sb)), tt = m2(s * (th - a) + p / 2);
    best = std::min(best, tt + p + m2(s * (b - a) - tt + p));
  }
  return best;
}
static std::string c01(const V &v)
{
  Dubins_State_Space ss(v[0], 0.1, v[1] != 0);
  State a = mk(v[2], v[3], v[4]), b = mk(v[5], v[6], v[7]);
  auto c = ss.get_controls(a, b);
  if (!finite_all(c)) return "controls not finite";
  double sg = v[1] != 0 ? 1 : -1, L = 0;
  for (auto &k : c) {
    if (k.sigma != 0) return fmt("sigma %g != 0", k.sigma);
    if (k.kappa != 0 && fabs(fabs(k.kappa) - v[0]) > 1e-12 * v[0]) return fmt("curvature %.17g not in {0,+-%g}", k.kappa, v[0]);
    if (sg * k.delta_s < -1e-12 / v[0]) return fmt("segment in the forbidden direction: %.17g", k.delta_s);
    L += fabs(k.delta_s);
  }
  Q e = flow_all({a.x, a.y, a.theta, 0}, c);
  double tol = 2e-5 / v[0] + 1e-9 * (fabs(v[2]) + fabs(v[3]) + L);
  if (!(std::hypot(e.x - b.x, e.y - b.y) <= tol)) return fmt("ends at (%.9g,%.9g), goal (%.9g,%.9g)", e.x, e.y, b.x, b.y);
  if (!(fabs(angdiff(e.t, b.theta)) <= 2e-5)) return fmt("ends with heading %.9g, goal %.9g", e.t, b.theta);
  return "";
}
static std::string c02(const V &v)
{
  Dubins_State_Space ss(v[0], 0.1, v[1] != 0);
  State a = mk(v[2], v[3], v[4]), b = mk(v[5], v[6], v[7]);
  auto c = ss.get_controls(a, b);
  double L = 0, d = ss.get_distance(a, b);
  for (auto &k : c) L += fabs(k.delta_s);
  if (!(fabs(L - d) <= 1e-9 * (1 + L))) return fmt("distance %.17g, length of the controls %.17g", d, L);
  // rounding can turn a zero-length turn into a full one (known finding): a violation counts only if it persists in a neighbourhood
  double worst = 1e300;
  auto gap = [&](double e1, double e2, double e3) {
    State a2 = mk(v[2] + e3, v[3] + 0.7 * e3, v[4] + e1), b2 = mk(v[5], v[6], v[7] + e2);
    State p = v[1] != 0 ? a2 : b2, q = v[1] != 0 ? b2 : a2;
    double dx = q.x - p.x, dy = q.y - p.y, D = std::hypot(dx, dy), th = atan2(dy, dx);
    return ss.get_distance(a2, b2) - best6(D * v[0], p.theta - th, q.theta - th) / v[0] - 1e-4 / v[0] - 1e-9 * D;
  };
  if (!(gap(0, 0, 0) > 0)) return "";
  for (double e1 : {0.0, 3e-6, -2.1e-6}) for (double e2 : {0.0, 3.3e-6, -2.3e-6}) for (double e3 : {0.0, 1.7e-6, -1.9e-6})
    worst = std::min(worst, gap(e1, e2, e3 / v[0]));
  if (worst > 0) return fmt("distance %.9g although a word at least %.9g shorter reaches the goal", d, worst);
  return "";
}
static Reg r1("C01", gen, c01), r2("C02", gen, c02);

#include "oracle.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
// input: kappa, x1 y1 t1 x2 y2 t2
namespace {
struct Pose { double x, y, t; };
Pose step(Pose q, int c, double l)
{
  if (c == 0) return {q.x + l * cos(q.t), q.y + l * sin(q.t), q.t};
  double t2 = q.t + c * l;
  return {q.x + (sin(t2) - sin(q.t)) / c, q.y + (cos(q.t) - cos(t2)) / c, t2};
}
double wrap(double a) { return std::remainder(a, 2 * PI_); }
struct W { const char *name; std::vector<int> c; int st, su, sv; bool rev; };
const std::vector<W> WS = {
  {"LpSpLp", {1, 0, 1}, 1, 0, 1, false}, {"LpSpRp", {1, 0, -1}, 1, 0, 1, false}, {"LpRmL", {1, -1, 1}, 1, 0, 0, true},
  {"LpRupLumRm", {1, -1, 1, -1}, 1, 0, -1, false}, {"LpRumLumRp", {1, -1, 1, -1}, 1, 0, 1, false}, {"LpRmSmLm", {1, -1, 0, 1}, 1, -1, -1, true},
  {"LpRmSmRm", {1, -1, 0, -1}, 1, -1, -1, true}, {"LpRmSLmRp", {1, -1, 0, 1, -1}, 1, -1, 1, false}};
// length of word w to (x,y,phi); 1e300 if it has no canonical solution (with margin)
double word(int w, double x, double y, double phi, V &ls)
{
  const W &s = WS[w];
  int ce = s.c.back();
  double cx = x - ce * sin(phi), cy = y + ce * cos(phi) - 1, rho = std::hypot(cx, cy), al = atan2(cy, cx), u, m = 1e-7;
  if (rho < 1e-6) return 1e300;
  V mid;
  switch (w) {
    case 0: u = rho; mid = {u}; break;
    case 1: if (rho < 2 + m) return 1e300; u = sqrt(rho * rho - 4); mid = {u}; break;
    case 2: if (rho > 4 - m) return 1e300; u = -2 * asin(rho / 4); mid = {u}; break;
    case 3: if (rho > 2 - m) return 1e300; u = acos((2 + rho) / 4); mid = {u, -u}; break;
    case 4: if (rho < 2 + m || rho * rho > 20 - m) return 1e300; u = -acos((20 - rho * rho) / 16); mid = {u, u}; break;
    case 5: if (rho < 2 + m) return 1e300; u = 2 - sqrt(rho * rho - 4); mid = {-PI_ / 2, u}; break;
    case 6: if (rho < 2 + m) return 1e300; u = 2 - rho; mid = {-PI_ / 2, u}; break;
    default: if (rho < 2 + m) return 1e300; u = 4 - sqrt(rho * rho - 4); mid = {-PI_ / 2, u, -PI_ / 2};
  }
  Pose q{0, 0, 0};
  for (size_t i = 0; i < mid.size(); i++) q = step(q, s.c[i + 1], mid[i]);
  double wx = q.x - ce * sin(q.t), wy = q.y + ce * cos(q.t) - 1;
  if (fabs(std::hypot(wx, wy) - rho) > 1e-6) return 1e300;  // not a solution (cannot happen)
  double t = wrap(al - atan2(wy, wx)), v = wrap(ce * (phi - t - q.t));
  if (s.st * t < (s.st ? m : 0) || (s.su && s.su * u < m) || (s.sv && s.sv * v < m)) return 1e300;
  ls = {t}; ls.insert(ls.end(), mid.begin(), mid.end()); ls.push_back(v);
  double L = 0;
  for (double l : ls) L += fabs(l);
  return L;
}
double best(double x, double y, double phi, std::string &nm)
{
  double B = 1e300; V ls;
  for (int w = 0; w < 8; w++)
    for (int bw = 0; bw < (WS[w].rev ? 2 : 1); bw++)
      for (int f = 0; f < 4; f++) {
        double X = x, Y = y, P = phi;
        if (bw) { X = x * cos(phi) + y * sin(phi); Y = x * sin(phi) - y * cos(phi); }
        if (f & 1) { X = -X; P = -P; }
        if (f & 2) { Y = -Y; P = -P; }
        double L = word(w, X, Y, P, ls);
        if (L < B) { B = L; nm = WS[w].name; }
      }
  return B;
}
V gen(Rng &r)
{
  double k = r.p(0.3) ? 1.0 : std::pow(10, r.u(-1.5, 1.0)), ki = 1 / k;
  double x = r.p(0.3) ? 0 : r.u(-10, 10), y = r.p(0.3) ? 0 : r.u(-10, 10), t1 = special_angle(r), t2 = r.p(0.2) ? t1 : special_angle(r);
  double L = special_len(r, ki), ph = r.p(0.3) ? t1 + (r.n(8) * PI_ / 4) : r.u(-PI_, PI_);
  return {k, x, y, t1, x + L * std::cos(ph), y + L * std::sin(ph), t2};
}
std::string c03(const V &v)
{
  Reeds_Shepp_State_Space ss(v[0], 0.1);
  State a = mk(v[1], v[2], v[3]), b = mk(v[4], v[5], v[6]);
  auto c = ss.get_controls(a, b);
  if (!finite_all(c)) return "controls not finite";
  double L = 0;
  for (auto &k : c) {
    if (k.sigma != 0) return fmt("sigma %g != 0", k.sigma);
    if (k.kappa != 0 && fabs(fabs(k.kappa) - v[0]) > 1e-12 * v[0]) return fmt("curvature %.17g not in {0,+-%g}", k.kappa, v[0]);
    if (fabs(k.delta_s) > 1e100) return "no path";
    L += fabs(k.delta_s);
  }
  Q e = flow_all({a.x, a.y, a.theta, 0}, c);
  double tol = 2e-5 / v[0] + 1e-9 * (fabs(v[1]) + fabs(v[2]) + L);
  if (!(std::hypot(e.x - b.x, e.y - b.y) <= tol)) return fmt("ends at (%.9g,%.9g), goal (%.9g,%.9g)", e.x, e.y, b.x, b.y);
  if (!(fabs(angdiff(e.t, b.theta)) <= 2e-5)) return fmt("ends with heading %.9g, goal %.9g", e.t, b.theta);
  return "";
}
std::string c04(const V &v)
{
  Reeds_Shepp_State_Space ss(v[0], 0.1);
  State a = mk(v[1], v[2], v[3]), b = mk(v[4], v[5], v[6]);
  auto c = ss.get_controls(a, b);
  double L = 0, d = ss.get_distance(a, b);
  for (auto &k : c) L += fabs(k.delta_s);
  if (!(fabs(L - d) <= 1e-9 * (1 + L))) return fmt("distance %.17g, length of the controls %.17g", d, L);
  double dx = b.x - a.x, dy = b.y - a.y, X = v[0] * (dx * cos(a.theta) + dy * sin(a.theta)), Y = v[0] * (dy * cos(a.theta) - dx * sin(a.theta));
  std::string nm;
  double B = best(X, Y, b.theta - a.theta, nm) / v[0];
  if (d > B + 1e-5 / v[0] + 1e-9 * B) return fmt("distance %.9g although the word %s has length %.9g", d, nm.c_str(), B);
  return "";
}
Reg r1("C03", gen, c03), r2("C04", gen, c04);
}

#include "oracle.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/filter/ekf.hpp"
// space disc x y th t n (ds kappa sigma)*n
static V gen(Rng &r)
{
  int sp = r.n(3), n = r.p(.2) ? 1 : r.p(.1) ? 8 + r.n(6) : 1 + r.n(5);
  double disc = r.p(.3) ? 0.1 : r.p(.3) ? std::pow(10, r.u(-2, 1)) : r.u(0.02, 2);
  double t = r.p(.08) ? 0 : r.p(.08) ? -r.u(0, 2) : r.p(.08) ? 1 : r.p(.08) ? 1 + r.u(0, 2) : r.p(.1) ? r.u(0, 1e-3) : r.u();
  V v{(double)sp, disc, r.u(-5, 5), r.u(-5, 5), special_angle(r), t, (double)n};
  double k = 0;
  for (int i = 0; i < n; i++) {
    double ds = r.p(.08) ? 0 : r.p(.2) ? disc * (1 + r.n(5)) : r.p(.3) ? r.u(0, disc) : r.p(.1) ? r.u(20, 60) * disc : r.u(0, 6) * disc;
    ds = std::min(ds, 20.0);
    if (r.p(.45)) ds = -ds;
    double kk = sp == 2 && r.p(.7) ? k : r.p(.3) ? 0 : r.u(-2, 2), sg = sp == 2 && r.p(.6) ? r.u(-1.5, 1.5) : 0;
    if (fabs(sg) < 2e-4) sg = 0;
    if (fabs(kk) < 2e-4) kk = 0;
    if (fabs(kk - k) < 1e-3) kk = k;
    v.push_back(ds); v.push_back(kk); v.push_back(sg);
    k = kk + sg * fabs(ds);
  }
  return v;
}
struct In { int sp; double disc, t; State a; std::vector<Control> c; };
static In rd(const V &v) { In i; i.sp = (int)v[0]; i.disc = v[1]; i.a = mk(v[2], v[3], v[4], 0.37, 0.5); i.t = v[5]; for (int k = 0; k < (int)v[6]; k++) { Control c; c.delta_s = v[7 + 3 * k]; c.kappa = v[8 + 3 * k]; c.sigma = v[9 + 3 * k]; i.c.push_back(c); } return i; }
static double sg(double x) { return x < 0 ? -1 : 1; }
static Q mv(const Q &q, Control k, double f = 1) { double kk = k.kappa; if (k.sigma == 0 && fabs(kk) <= 1e-4) k.kappa = 0; Q r = flow(q, k, f); if (k.sigma == 0) r.k = kk; return r; }
struct Samp { int c; double step; };   // step < 0: start sample
struct Walk {
  const In &in; const std::vector<State> &p; std::vector<Samp> asg; std::string why; double tol;
  Walk(const In &i, const std::vector<State> &q) : in(i), p(q) { double L = 0; for (auto &c : i.c) L += fabs(c.delta_s); tol = 1e-6 * (1 + L) * (1 + L); }
  bool eq(const State &s, const Q &q, double d, size_t idx, int c, double at)
  {
    bool ok = std::hypot(s.x - q.x, s.y - q.y) <= tol && fabs(angdiff(s.theta, q.t)) <= tol && fabs(s.kappa - q.k) <= tol && s.d == d;
    if (!ok) why = fmt("sample %zu (%.9g,%.9g,%.9g k=%.9g d=%g) instead of (%.9g,%.9g,%.9g k=%.9g d=%g): control %d at arc length %.9g", idx, s.x, s.y, s.theta, s.kappa, s.d, q.x, q.y, q.t, q.k, d, c, at);
    return ok;
  }
  bool rec(size_t idx, size_t c, Q q)
  {
    if (c == in.c.size()) { if (idx != p.size()) { why = fmt("%zu samples, %zu expected", p.size(), idx); return false; } return true; }
    Control k = in.c[c]; double L = fabs(k.delta_s), d = sg(k.delta_s);
    size_t keep = asg.size();
    if (c == 0 || in.sp != 2 || fabs(k.kappa - q.k) > 1e-4) {
      q.k = k.kappa;
      if (idx >= p.size()) { why = fmt("path ends before control %zu", c); return false; }
      if (!eq(p[idx], q, d, idx, (int)c, 0)) return false;
      asg.push_back({(int)c, -1}); idx++;
    }
    k.kappa = q.k; Q q0 = q; double s = 0;
    while (L - s > 1e-9) {
      double st = std::min(in.disc, L - s); s = std::min(L, s + st);
      if (L - s <= 1e-9) s = L;
      if (idx >= p.size()) { why = fmt("path ends inside control %zu", c); asg.resize(keep); return false; }
      q = mv(q0, k, s / L);
      if (!eq(p[idx], q, d, idx, (int)c, s)) { asg.resize(keep); return false; }
      asg.push_back({(int)c, st}); idx++;
    }
    if (rec(idx, c + 1, q)) return true;
    double r = L / in.disc;
    if (L > 0 && fabs(r - std::round(r)) < 1e-9 && idx < p.size()) {   // a last step of rounding size
      std::string w = why;
      if (eq(p[idx], q, d, idx, (int)c, L)) { asg.push_back({(int)c, 0}); if (rec(idx + 1, c + 1, q)) return true; asg.pop_back(); }
      why = w;
    }
    asg.resize(keep);
    return false;
  }
};
template <class F> static auto with(const In &i, F f)
{
  Motion_Noise m{0.1, 0.2, 0.15, 0.05}; Measurement_Noise n{0.1, 0.2, 0.3}; Controller c{1, 0.8, 1.3};
  if (i.sp == 0) { Dubins_State_Space s(1.0, i.disc, true); s.set_filter_parameters(m, n, c); return f(s); }
  if (i.sp == 1) { Reeds_Shepp_State_Space s(1.0, i.disc); s.set_filter_parameters(m, n, c); return f(s); }
  CC00_Dubins_State_Space s(1.0, 1.0, i.disc, true); s.set_filter_parameters(m, n, c); return f(s);
}
static bool same(const State &a, const State &b) { return a.x == b.x && a.y == b.y && a.theta == b.theta && a.kappa == b.kappa && a.d == b.d; }
static std::string c10(const V &v)
{
  In i = rd(v);
  return with(i, [&](auto &s) -> std::string {
    std::vector<State> p = s.integrate(i.a, i.c);
    Walk w(i, p); if (!w.rec(0, 0, {i.a.x, i.a.y, i.a.theta, 1e9})) return w.why;
    State g = mk(i.a.x + i.c[0].delta_s, i.a.y + i.c[0].kappa, i.a.theta + i.t);
    auto gp = s.get_path(i.a, g), gi = s.integrate(i.a, s.get_controls(i.a, g));
    if (gp.size() != gi.size()) return fmt("get_path has %zu samples, integrating the controls gives %zu", gp.size(), gi.size());
    for (size_t k = 0; k < gp.size(); k++) if (!same(gp[k], gi[k])) return fmt("get_path differs from the integrated controls at sample %zu", k);
    return "";
  });
}
static std::string c11(const V &v)
{
  In i = rd(v);
  return with(i, [&](auto &s) -> std::string {
    std::vector<State> p = s.integrate(i.a, i.c);
    State_With_Covariance b; b.state = i.a; Rng r(7);
    double A[9]; for (auto &x : A) x = r.u(-.5, .5);
    for (int k = 0; k < 16; k++) b.Sigma[k] = b.Lambda[k] = b.covariance[k] = 0;
    for (int a = 0; a < 3; a++) for (int c = 0; c < 3; c++) { double z = 0; for (int k = 0; k < 3; k++) z += A[3 * a + k] * A[3 * c + k]; b.Sigma[4 * a + c] = z; b.Lambda[4 * a + c] = 0.3 * z + (a == c ? 0.1 : 0); b.covariance[4 * a + c] = b.Sigma[4 * a + c] + b.Lambda[4 * a + c]; }
    auto pc = s.integrate_with_covariance(b, i.c);
    if (pc.size() != p.size()) return fmt("%zu samples with covariance, %zu without", pc.size(), p.size());
    for (size_t k = 0; k < p.size(); k++) if (!same(p[k], pc[k].state)) return fmt("state of sample %zu differs", k);
    Walk w(i, p); if (!w.rec(0, 0, {i.a.x, i.a.y, i.a.theta, 1e9})) return "";   // C10
    EKF e; e.set_parameters({0.1, 0.2, 0.15, 0.05}, {0.1, 0.2, 0.3}, {1, 0.8, 1.3});
    State_With_Covariance q = b; double big = 1;
    for (size_t k = 0; k < pc.size(); k++) {
      Samp a = w.asg[k]; State_With_Covariance n = q;
      if (a.step >= 0) { State_With_Covariance pr = pc[k]; e.predict(q, i.c[a.c], a.step, pr); n = pc[k]; e.update(pr, n); }
      for (int j = 0; j < 16; j++) if (j % 4 < 3 && j / 4 < 3) {
        big = std::max(big, fabs(n.Sigma[j]) + fabs(n.Lambda[j]));
        if (!(big < 1e6)) return "";
        double t = 1e-6 * big;
        if (!(fabs(n.Sigma[j] - pc[k].Sigma[j]) <= t && fabs(n.Lambda[j] - pc[k].Lambda[j]) <= t && fabs(n.covariance[j] - pc[k].covariance[j]) <= t))
          return fmt("belief of sample %zu entry %d: Sigma %.9g Lambda %.9g covariance %.9g instead of %.9g %.9g %.9g", k, j, pc[k].Sigma[j], pc[k].Lambda[j], pc[k].covariance[j], n.Sigma[j], n.Lambda[j], n.covariance[j]);
      }
      q = pc[k];
    }
    State g = mk(i.a.x + i.c[0].delta_s, i.a.y + i.c[0].kappa, i.a.theta + i.t);
    auto gp = s.get_path_with_covariance(b, g); auto gi = s.integrate_with_covariance(b, s.get_controls(b.state, g));
    if (gp.size() != gi.size()) return fmt("get_path_with_covariance has %zu samples, integrating the controls gives %zu", gp.size(), gi.size());
    for (size_t k = 0; k < gp.size(); k++) { if (!same(gp[k].state, gi[k].state)) return fmt("get_path_with_covariance differs at sample %zu", k); for (int j = 0; j < 11; j++) if (j % 4 < 3 && gp[k].covariance[j] != gi[k].covariance[j]) return fmt("get_path_with_covariance differs at sample %zu", k); }
    return "";
  });
}
static std::string c12(const V &v)
{
  In i = rd(v);
  return with(i, [&](auto &s) -> std::string {
    State r = s.interpolate(i.a, i.c, i.t);
    double tot = 0; for (auto &c : i.c) tot += fabs(c.delta_s);
    double tol = 1e-6 * (1 + tot) * (1 + tot), tgt = i.t <= 0 ? 0 : i.t > 1 ? tot : i.t * tot;
    if (i.t <= 0) return r.x == i.a.x && r.y == i.a.y && r.theta == i.a.theta && r.kappa == i.c[0].kappa && r.d == sg(i.c[0].delta_s) ? "" : fmt("t=%g does not give the start: k=%g d=%g", i.t, r.kappa, r.d);
    Q q{i.a.x, i.a.y, i.a.theta, i.c[0].kappa}; double S = 0; std::string why = "no control contains the target";
    for (size_t c = 0; c < i.c.size(); c++) {
      Control k = i.c[c]; double L = fabs(k.delta_s);
      double dprev = c ? sg(i.c[c - 1].delta_s) : sg(k.delta_s), kprev = q.k;
      if (i.sp != 2 || fabs(k.kappa - q.k) > 1e-4) q.k = k.kappa;
      k.kappa = q.k;
      double s = tgt - S;
      if (s >= -1e-9 && s <= L + 1e-9) {
        s = std::min(std::max(s, 0.0), L);
        Q e = L > 0 ? mv(q, k, s / L) : q;
        bool okp = std::hypot(r.x - e.x, r.y - e.y) <= tol && fabs(angdiff(r.theta, e.t)) <= tol;
        bool okk = fabs(r.kappa - e.k) <= tol && r.d == sg(k.delta_s);
        if (s < 1e-8) okk = okk || (fabs(r.kappa - kprev) <= tol && r.d == dprev) || (fabs(r.kappa - k.kappa) <= tol && r.d == dprev);
        if (okp && okk) return "";
        why = fmt("t=%.9g: (%.9g,%.9g,%.9g k=%.9g d=%g) instead of (%.9g,%.9g,%.9g k=%.9g d=%g) in control %zu at %.9g of %.9g", i.t, r.x, r.y, r.theta, r.kappa, r.d, e.x, e.y, e.t, e.k, sg(k.delta_s), c, s, L);
      }
      if (L > 0) q = mv(q, k);
      S += L;
    }
    return why;
  });
}
static Reg r10("C10", gen, c10), r11("C11", gen, c11), r12("C12", gen, c12);

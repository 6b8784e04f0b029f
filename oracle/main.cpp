#include "oracle.hpp"
#include <chrono>
#include <cstdarg>
std::map<std::string, Prop> &props() { static std::map<std::string, Prop> m; return m; }
std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
State mk(double x, double y, double t, double k, double d) { State s; s.x = x; s.y = y; s.theta = t; s.kappa = k; s.d = d; return s; }
bool finite_all(const std::vector<Control> &c) { for (auto &k : c) if (!std::isfinite(k.delta_s) || !std::isfinite(k.kappa) || !std::isfinite(k.sigma)) return false; return true; }
static const double GX[8] = {0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499};
static const double GW[8] = {0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541};
Q flow(Q q, const Control &c, double frac)
{
  double s = c.delta_s * frac, d = c.delta_s < 0 ? -1 : 1, L = std::fabs(s);
  // kappa(u) = kappa + sigma*u, u = |arc length|; theta' = d*kappa
  double k0 = c.kappa, sg = c.sigma;
  Q r = q;
  double tot = std::fabs(k0) * L + 0.5 * std::fabs(sg) * L * L;
  int n = 1 + (int)(tot / 1.0);
  if (n > 200000) n = 200000;
  double sx = 0, sy = 0;
  for (int i = 0; i < n; i++) {
    double a = L * i / n, b = L * (i + 1) / n, m = 0.5 * (a + b), h = 0.5 * (b - a);
    for (int j = 0; j < 8; j++)
      for (int e = -1; e <= 1; e += 2) {
        double u = m + e * h * GX[j], th = q.t + d * (k0 * u + 0.5 * sg * u * u);
        sx += GW[j] * h * std::cos(th); sy += GW[j] * h * std::sin(th);
      }
  }
  r.x = q.x + d * sx; r.y = q.y + d * sy; r.t = q.t + d * (k0 * L + 0.5 * sg * L * L); r.k = k0 + sg * L;
  return r;
}
Q flow_all(Q q, const std::vector<Control> &cs) { for (auto &c : cs) q = flow(q, c); return q; }
double special_angle(Rng &r)
{
  switch (r.n(6)) {
    case 0: return (r.n(17) - 8) * PI_ / 4;
    case 1: return (r.n(17) - 8) * PI_ / 4 + r.u(-1e-3, 1e-3);
    case 2: return r.u(-20, 20);
    default: return r.u(-PI_, PI_);
  }
}
double special_len(Rng &r, double ki)
{
  switch (r.n(10)) {
    case 0: return 0;
    case 1: return r.n(9) * ki;
    case 2: return r.n(9) * ki + r.u(-1e-3, 1e-3) * ki;
    case 3: return std::pow(10, r.u(-8, 0)) * ki;
    case 4: return r.u(0, 200) * ki;
    case 5: return r.u(0, 15) * ki;
    default: return r.u(0, 5) * ki;
  }
}
int main(int argc, char **argv)
{
  if (argc < 3 || !props().count(argv[1])) { fprintf(stderr, "usage: oracle ID search SEED SECONDS | at v...\n"); return 2; }
  Prop &p = props()[argv[1]];
  if (!strcmp(argv[2], "at")) {
    V v; for (int i = 3; i < argc; i++) v.push_back(atof(argv[i]));
    std::string w = p.check(v);
    if (w.empty()) { printf("HOLDS\n"); return 0; }
    printf("FAIL %s\n", w.c_str()); return 1;
  }
  unsigned seed = argc > 3 ? atoi(argv[3]) : 1; double secs = argc > 4 ? atof(argv[4]) : 10; long maxn = argc > 5 ? atol(argv[5]) : 2000000000L;
  Rng r(seed);
  auto t0 = std::chrono::steady_clock::now();
  long n = 0;
  for (;; n++) {
    if (n >= maxn) break;
    if ((n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    V v = p.gen(r);
    std::string w = p.check(v);
    if (!w.empty()) {
      printf("FAIL %s\nINPUT", w.c_str()); for (double d : v) printf(" %.17g", d); printf("\nTRIED %ld\n", n + 1);
      return 1;
    }
  }
  printf("HOLDS\nTRIED %ld\n", n);
  return 0;
}

// Replay and counterexample search against the real library (not part of the deciding step).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
using namespace steering;
typedef std::vector<double> V;
const double PI_ = 3.14159265358979323846;
struct Rng {
  std::mt19937_64 g;
  explicit Rng(unsigned s) : g(s) {}
  double u(double a = 0, double b = 1) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(g); }
  int n(int k) { return (int)(g() % (unsigned)k); }
  bool p(double q) { return u() < q; }
};
struct Prop {
  std::function<V(Rng &)> gen;
  std::function<std::string(const V &)> check;  // "" if the property holds on this input
};
std::map<std::string, Prop> &props();
struct Reg { Reg(const char *id, std::function<V(Rng &)> g, std::function<std::string(const V &)> c) { props()[id] = {g, c}; } };
std::string fmt(const char *f, ...);
// exact motion (closed form for constant curvature, Gauss-Legendre for clothoids)
struct Q { double x, y, t, k; };
Q flow(Q q, const Control &c, double frac = 1.0);
Q flow_all(Q q, const std::vector<Control> &cs);
inline double angdiff(double a, double b) { return std::remainder(a - b, 2 * PI_); }
double special_angle(Rng &r);
double special_len(Rng &r, double kinv);
State mk(double x, double y, double t, double k = 0, double d = 0);
bool finite_all(const std::vector<Control> &c);

// Harmonic analysis and selection of the constituents to be analysed.
#include <cmath>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include "fes/wave/table.hpp"
#include "vf.h"
using namespace fes;
static const double PI = 3.14159265358979323846;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
namespace {
// nodal factors and arguments of 2 constituents at 6 dates
double fk(int set, int k, int t) { return set == 0 ? 1 : 0.85 + 0.05 * k + 0.01 * t * (set == 1 ? 1 : -1); }
double vuk(int set, int k, int t) { return set == 2 ? 0.3 + 1.1 * k + (0.7 + 0.45 * k) * t : 0.1 * set - 2.1 * k + (0.9 - 0.37 * k) * t; }
void matrices(int set, int nw, int nt, Eigen::MatrixXd& f, Eigen::MatrixXd& vu) {
  f.resize(nw, nt);
  vu.resize(nw, nt);
  for (int k = 0; k < nw; ++k)
    for (int t = 0; t < nt; ++t) {
      f(k, t) = fk(set, k, t);
      vu(k, t) = vuk(set, k, t);
    }
}
}  // namespace
// Heights made of the harmonic terms: the constants are recovered.
HARNESS(h_analysis_exact) {
  int set = vf_choose("set", 3), nw = 1 + vf_choose("constituents", 2), nt = 2 * nw + vf_choose("more", 3);
  Eigen::MatrixXd f, vu;
  matrices(set, nw, nt, f, vu);
  double re[2], im[2];
  for (int k = 0; k < nw; ++k) re[k] = vf_double("re", -10, 10), im[k] = vf_double("im", -10, 10);
  Eigen::VectorXd h(nt);
  for (int t = 0; t < nt; ++t) {
    h(t) = 0;
    for (int k = 0; k < nw; ++k) h(t) += f(k, t) * (re[k] * std::cos(vu(k, t)) + im[k] * std::sin(vu(k, t)));
  }
  auto r = wave::Table::harmonic_analysis(h, f, vu);
  vf_reach("analysed");
  vf_check(r.size() == nw, "one constant for each constituent");
  for (int k = 0; k < nw; ++k) {
    vf_check(vf_close(r(k).real(), re[k], 1e-6), "in-phase constant recovered");
    vf_check(vf_close(r(k).imag(), im[k], 1e-6), "quadrature constant recovered");
  }
}
// Any heights: the residual is orthogonal to every harmonic term.
HARNESS(h_analysis_least_squares) {
  int set = vf_choose("set", 3), nw = 1 + vf_choose("constituents", 2), nt = 2 * nw + 2;
  Eigen::MatrixXd f, vu;
  matrices(set, nw, nt, f, vu);
  Eigen::VectorXd h(nt);
  for (int t = 0; t < nt; ++t) h(t) = vf_double("h", -10, 10);
  auto r = wave::Table::harmonic_analysis(h, f, vu);
  vf_reach("analysed");
  vf_check(r.size() == nw, "one constant for each constituent");
  double e[8];
  for (int t = 0; t < nt; ++t) {
    e[t] = h(t);
    for (int k = 0; k < nw; ++k) e[t] -= f(k, t) * (r(k).real() * std::cos(vu(k, t)) + r(k).imag() * std::sin(vu(k, t)));
  }
  for (int k = 0; k < nw; ++k) {
    double c = 0, s = 0;
    for (int t = 0; t < nt; ++t) {
      c += e[t] * f(k, t) * std::cos(vu(k, t));
      s += e[t] * f(k, t) * std::sin(vu(k, t));
    }
    vf_check(vf_close(c, 0, 1e-6) && vf_close(s, 0, 1e-6), "the residual is orthogonal to the harmonic terms");
  }
}
// One constituent with any nodal factors.
HARNESS(h_analysis_factors) {
  Eigen::MatrixXd f, vu;
  matrices(1, 1, 2, f, vu);
  for (int t = 0; t < 2; ++t) f(0, t) = vf_double("f", 0.5, 1.5);
  double re = vf_double("re", -10, 10), im = vf_double("im", -10, 10);
  Eigen::VectorXd h(2);
  for (int t = 0; t < 2; ++t) h(t) = f(0, t) * (re * std::cos(vu(0, t)) + im * std::sin(vu(0, t)));
  auto r = wave::Table::harmonic_analysis(h, f, vu);
  vf_reach("analysed");
  vf_check(vf_close(r(0).real(), re, 1e-6), "in-phase constant recovered");
  vf_check(vf_close(r(0).imag(), im, 1e-6), "quadrature constant recovered");
}
// A height missing: every constant is undefined.
HARNESS(h_analysis_missing) {
  int nw = 1 + vf_choose("constituents", 2), nt = 5, at = vf_choose("missing", nt + 1);
  Eigen::MatrixXd f, vu;
  matrices(1, nw, nt, f, vu);
  Eigen::VectorXd h(nt);
  for (int t = 0; t < nt; ++t) h(t) = t == at ? NaN : vf_double("h", -10, 10);
  auto r = wave::Table::harmonic_analysis(h, f, vu);
  vf_reach("missing");
  vf_check(r.size() == nw, "one constant for each constituent");
  for (int k = 0; k < nw; ++k) {
    vf_check(vf_isnan(r(k).real()) == (at < nt), "undefined exactly when a height is missing");
    vf_check(vf_isnan(r(k).imag()) == (at < nt), "undefined exactly when a height is missing");
  }
}
HARNESS(h_analysis_shapes) {
  int a = 1 + vf_choose("f rows", 2), b = 3 + vf_choose("f cols", 3), c = 1 + vf_choose("vu rows", 2), d = 3 + vf_choose("vu cols", 3), e = 3 + vf_choose("h", 3);
  Eigen::MatrixXd f, vu, unused;
  matrices(1, a, b, f, unused);
  matrices(1, c, d, unused, vu);
  Eigen::VectorXd h = Eigen::VectorXd::Constant(e, 0.5);
  bool refused = false;
  try {
    auto r = wave::Table::harmonic_analysis(h, f, vu);
    vf_check(r.size() == a, "one constant for each constituent");
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach("shapes");
  vf_check(refused == (a != c || b != d || e != b), "inconsistent sizes are refused");
}
// ---- selection
namespace {
struct Spec {
  int id;
  const char* name;
  int long_period, admittance, t, s, h, p, p1, shift, xi, nu, nup, nus, factor;
  const char* doodson;
};
enum Factor { F_1, F_O1, F_OO1, F_J1, F_M1, F_M2, F_M3, F_MF, F_MM, F_M22, F_M23, F_M24, F_K1, F_K2, F_79, F_L2, F_M2_K2,
  F_M2_K1, F_M2_O1, F_M22_K1, F_M22_K2, F_141 };
const Spec SPEC[] = {
#define W(...) {__VA_ARGS__},
#include "waves.inc"
#undef W
};
const int N = sizeof(SPEC) / sizeof(SPEC[0]);
void select(double duration, double factor) {
  auto names = wave::Table::select_waves_for_analysis(duration, factor);
  vf_reach("selected");
  double hours = factor * duration / 3600;
  // degrees per hour (Schureman 1958, table 1)
  const double century = 3155760000.0, S = (1336 * 360 + 307.892) / century * 3600, H = (100 * 360 + 0.769) / century * 3600,
               P = (11 * 360 + 109.032) / century * 3600, P1 = 1.719 / century * 3600;
  size_t n = 0;
  bool ok = true;
  for (int i = 0; i < N; ++i) {
    const Spec& w = SPEC[i];
    double speed = w.t * 15.0 + w.s * S + w.h * H + w.p * P + w.p1 * P1;
    double period = 360 / speed;
    bool in = false;
    for (const auto& x : names) in = in || x == w.name;
    n += in;
    if (period > 0) ok = ok && (in ? period < hours * (1 + 1e-6) : period > hours * (1 - 1e-6));
  }
  vf_check(ok, "selected exactly when the period is shorter than the part of the series requested");
  vf_check(n == names.size(), "each constituent once");
}
}  // namespace
HARNESS(h_select_duration) {
  static const double F[3] = {1, 2, 0.5};
  select(vf_double("duration", 0, 1e9), F[vf_choose("factor", 3)]);
}
HARNESS(h_select_factor) { select(86400.0 * 29, vf_double("factor", 0, 20)); }

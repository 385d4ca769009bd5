// Astronomical angles.
#include <cmath>
#include <limits>
#include <stdexcept>
#include "fes/angle/astronomic.hpp"
#include "vf.h"
using namespace fes;
using angle::Astronomic;
using angle::Formulae;
static const double PI = 3.14159265358979323846;
static double rad(double deg) { return deg * PI / 180; }
static double sec(double d, double m, double s) { return d + m / 60 + s / 3600; }

// Schureman (1958) page 162, T in Julian centuries since 1899-12-31T12:00.
static void schureman(double epoch, int order, double& n, double& h, double& s, double& p1, double& p) {
  double T = (epoch + 25567.5 * 86400) / (36525.0 * 86400);
  double T2 = order == 3 ? T * T : 0, T3 = order == 3 ? T * T * T : 0;
  n = sec(259, 10, 57.12) - (5 * 360 + 482912.63 / 3600) * T + 7.58 / 3600 * T2 + 0.008 / 3600 * T3;
  h = sec(279, 41, 48.04) + 129602768.13 / 3600 * T + 1.089 / 3600 * T2;
  s = sec(270, 26, 14.72) + (1336 * 360 + 1108411.20 / 3600) * T + 9.09 / 3600 * T2 + 0.0068 / 3600 * T3;
  p1 = sec(281, 13, 15.0) + 6189.03 / 3600 * T + 1.63 / 3600 * T2 + 0.012 / 3600 * T3;
  p = sec(334, 19, 40.87) + (11 * 360 + 392515.94 / 3600) * T - 37.24 / 3600 * T2 - 0.045 / 3600 * T3;
}
// Meeus (1998) chapter 47, T in Julian centuries of dynamical time since J2000.
static void meeus(double epoch, double leap, double& n, double& h, double& s, double& p1, double& p) {
  double T = (epoch + leap + 32.184 - 946728000.0) / (36525.0 * 86400);
  double T2 = T * T, T3 = T2 * T, T4 = T2 * T2;
  n = 125.0445479 - 1934.1362891 * T + 0.0020754 * T2 + T3 / 467441.0 - T4 / 60616000.0;
  s = 218.3164477 + 481267.88123421 * T - 0.0015786 * T2 + T3 / 538841.0 - T4 / 65194000.0;
  double d = 297.8501921 + 445267.1114034 * T - 0.0018819 * T2 - T3 / 545868.0 + T4 / 113065000.0;
  double g = 357.5291092 + 35999.0502909 * T - 0.0001536 * T2 + T3 / 24490000.0;
  h = s - d;
  p1 = h - g;
  p = 83.3532465 + 4069.0137287 * T - 0.0103200 * T2 - T3 / 80053.0 + T4 / 18999000.0;
}
static void polynomials(Formulae f) {
  double epoch = vf_double("epoch", -4e9, 8e9);
  uint16_t leap = static_cast<uint16_t>(vf_int("leap_seconds", 0, 65535));
  Astronomic a(f, epoch, leap);
  double n, h, s, p1, p;
  if (f == Formulae::kMeeus)
    meeus(epoch, leap, n, h, s, p1, p);
  else
    schureman(epoch, f == Formulae::kSchuremanOrder1 ? 1 : 3, n, h, s, p1, p);
  vf_reach("angles");
  const double C = 2 * PI, tol = 1e-8;
  vf_check(vf_close_mod(a.n(), rad(n), C, tol), "longitude of the moon's node");
  vf_check(vf_close_mod(a.h(), rad(h), C, tol), "mean longitude of the sun");
  vf_check(vf_close_mod(a.s(), rad(s), C, tol), "mean longitude of the moon");
  vf_check(vf_close_mod(a.p1(), rad(p1), C, tol), "longitude of the solar perigee");
  vf_check(vf_close_mod(a.p(), rad(p), C, tol), "longitude of the lunar perigee");
  vf_check(vf_close_mod(a.t(), rad(180 + epoch / 240), C, tol), "hour angle of the mean sun");
  const double e = 1e-9;
  vf_check(vf_and(a.n() >= 0, a.n() <= C + e), "node in [0, 2pi)");
  vf_check(vf_and(a.h() >= 0, a.h() <= C + e), "sun longitude in [0, 2pi)");
  vf_check(vf_and(a.s() >= 0, a.s() <= C + e), "moon longitude in [0, 2pi)");
  vf_check(vf_and(a.p1() >= 0, a.p1() <= C + e), "solar perigee in [0, 2pi)");
  vf_check(vf_and(a.p() >= 0, a.p() <= C + e), "lunar perigee in [0, 2pi)");
  vf_check(vf_and(a.t() >= -PI - e, a.t() <= PI + e), "hour angle in [-pi, pi]");
}
HARNESS(h_astro_schureman1) { polynomials(Formulae::kSchuremanOrder1); }
HARNESS(h_astro_schureman3) { polynomials(Formulae::kSchuremanOrder3); }
HARNESS(h_astro_meeus) { polynomials(Formulae::kMeeus); }

static bool same(const Astronomic& a, const Astronomic& b) {
  bool r = vf_close(a.t(), b.t(), 0);
  r = vf_and(r, vf_close(a.n(), b.n(), 0));
  r = vf_and(r, vf_close(a.h(), b.h(), 0));
  r = vf_and(r, vf_close(a.s(), b.s(), 0));
  r = vf_and(r, vf_close(a.p1(), b.p1(), 0));
  r = vf_and(r, vf_close(a.p(), b.p(), 0));
  r = vf_and(r, vf_close(a.i(), b.i(), 0));
  r = vf_and(r, vf_close(a.xi(), b.xi(), 0));
  r = vf_and(r, vf_close(a.nu(), b.nu(), 0));
  r = vf_and(r, vf_close(a.x1ra(), b.x1ra(), 0));
  r = vf_and(r, vf_close(a.r(), b.r(), 0));
  r = vf_and(r, vf_close(a.nuprim(), b.nuprim(), 0));
  return vf_and(r, vf_close(a.nusec(), b.nusec(), 0));
}
static Formulae formulae(int k) {
  return k == 0 ? Formulae::kSchuremanOrder1 : k == 1 ? Formulae::kSchuremanOrder3 : Formulae::kMeeus;
}
// The angles of a date do not depend on the date evaluated before, nor on
// whether they come from the constructor or from an update.
HARNESS(h_astro_history) {
  Formulae f = formulae(vf_choose("formulae", 3));
  double e = vf_double("epoch", -4e9, 8e9);
  uint16_t l = static_cast<uint16_t>(vf_int("leap", 0, 65535));
  Astronomic a(f, 1.25e9, 37);
  a.update(e, l);
  Astronomic b(f);
  b.update(e, l);
  vf_reach("history");
  vf_check(same(a, b), "angles depend on the date only");
}
HARNESS(h_astro_back) {
  Formulae f = formulae(vf_choose("formulae", 3));
  double e = vf_double("epoch", -4e9, 8e9);
  uint16_t l = static_cast<uint16_t>(vf_int("leap", 0, 65535));
  Astronomic a(f, e, l), b(f, 1.25e9, 37);
  a.update(1.25e9, 37);
  vf_reach("history");
  vf_check(same(a, b), "angles depend on the date only");
}
// Leap seconds: ignored by the Schureman formulae, added to the time by Meeus.
static void leap(int k) {
  Formulae f = formulae(k);
  double e = vf_double("epoch", -4e9, 8e9);
  uint16_t l1 = static_cast<uint16_t>(vf_int("leap1", 0, 65535)), l2 = static_cast<uint16_t>(vf_int("leap2", 0, 65535));
  Astronomic a(f, e, l1);
  if (k < 2) {
    Astronomic b(f, e, l2);
    vf_reach("schureman");
    vf_check(same(a, b), "Schureman angles independent of the leap seconds");
  } else {
    Astronomic c(f, e + (static_cast<double>(l1) - static_cast<double>(l2)), l2), d(f, e, 0);
    vf_reach("meeus");
    vf_check(vf_close(a.t(), d.t(), 0), "hour angle independent of the leap seconds");
    vf_check(vf_close_mod(a.s(), c.s(), 2 * PI, 1e-8), "a leap second moves the date by one second (moon)");
    vf_check(vf_close_mod(a.h(), c.h(), 2 * PI, 1e-8), "a leap second moves the date by one second (sun)");
    vf_check(vf_close_mod(a.n(), c.n(), 2 * PI, 1e-8), "a leap second moves the date by one second (node)");
    vf_check(vf_close_mod(a.p(), c.p(), 2 * PI, 1e-8), "a leap second moves the date by one second (perigee)");
  }
}
HARNESS(h_astro_leap1) { leap(0); }
HARNESS(h_astro_leap3) { leap(1); }
HARNESS(h_astro_leapm) { leap(2); }
HARNESS(h_astro_unknown) {
  bool thrown = false;
  try {
    Astronomic a(static_cast<Formulae>(vf_int("formulae", 3, 255)));
  } catch (const std::exception&) {
    thrown = true;
  }
  vf_reach("unknown");
  vf_check(thrown, "an unknown formulae is refused");
}

// Angles derived from (N, p), Schureman pages 41-46 and 156.
HARNESS(h_astro_derived) {
  Formulae f = formulae(vf_choose("formulae", 3));
  Astronomic a(f, vf_double("epoch", -4e9, 8e9), static_cast<uint16_t>(vf_int("leap", 0, 65535)));
  const double N = a.n();
  const double I = std::acos(0.91370 - 0.03569 * std::cos(N));
  const double tl = std::tan(N / 2);
  const double b = std::atan(1.01883 * tl), c = std::atan(0.64412 * tl);
  double xi = N - b - c;
  if (N > PI) xi -= 2 * PI;
  const double nu = b - c;
  const double P = a.p() - xi;
  const double tgi = std::tan(I / 2), t2 = tgi * tgi;
  vf_reach("derived");
  vf_check(vf_close(a.i(), I, 1e-9), "inclination of the moon's orbit");
  vf_check(vf_close(a.xi(), xi, 1e-9), "longitude in the moon's orbit of the intersection");
  vf_check(vf_close(a.nu(), nu, 1e-9), "right ascension of the intersection");
  vf_check(vf_close(a.x1ra(), std::sqrt(1 - 12 * t2 * std::cos(2 * P) + 36 * t2 * t2), 1e-9), "1/Ra of L2");
  vf_check(vf_close(a.r(), std::atan(std::sin(2 * P) / (1 / (6 * t2) - std::cos(2 * P))), 1e-9), "R of L2");
  const double s2i = std::sin(2 * I), si2 = std::sin(I) * std::sin(I);
  vf_check(vf_close(a.nuprim(), std::atan(s2i * std::sin(nu) / (s2i * std::cos(nu) + 0.3347)), 1e-9), "nu' of K1");
  vf_check(vf_close(a.nusec(), std::atan(si2 * std::sin(2 * nu) / (si2 * std::cos(2 * nu) + 0.0727)) / 2, 1e-9), "nu'' of K2");
}

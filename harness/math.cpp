// Angle normalisation and degree-argument trigonometry.
#include <cmath>

#include "fes/detail/math.hpp"
#include "vf.h"
namespace m = fes::detail::math;

HARNESS(h_normalize) {
  double x = vf_double("x", -1e6, 1e6), mn = vf_double("min", -1e4, 1e4);
  double c = vf_double("circle", 1e-3, 1e4);
  double r = m::normalize_angle(x, mn, c);
  vf_reach("r");
  vf_check(r >= mn - 1e-9, "result not below the interval");
  vf_check(r <= mn + c + 1e-9, "result not above the interval");
  vf_check(vf_close_mod(r, x, c, 1e-9), "result congruent to the input");
}
HARNESS(h_normalize_360) {
  double x = vf_double("x", -1e6, 1e6);
  double r = m::normalize_angle(x, 0.0);
  vf_reach("r");
  vf_check(r >= 0 && r < 360, "in [0,360)");
  vf_check(vf_close_mod(r, x, 360.0, 1e-6), "congruent");
  double r2 = m::normalize_angle(x);
  vf_check(r2 >= -180 && r2 < 180, "in [-180,180)");
  vf_check(vf_close_mod(r2, x, 360.0, 1e-6), "congruent");
}
// Degree-argument trigonometry: x = 90 k + r.
HARNESS(h_sincosd) {
  int k = vf_choose("k", 17) - 8;
  double r = vf_double("r", -44.999, 44.999), x = 90.0 * k + r;
  double s = std::sin(r * 3.14159265358979323846 / 180), c = std::cos(r * 3.14159265358979323846 / 180);
  double ws, wc;
  switch (((k % 4) + 4) % 4) {
    case 0: ws = s, wc = c; break;
    case 1: ws = c, wc = -s; break;
    case 2: ws = -s, wc = -c; break;
    default: ws = -c, wc = s;
  }
  vf_reach("sincosd");
  vf_check(vf_close(m::sind(x), ws, 1e-12), "sine of degrees");
  vf_check(vf_close(m::cosd(x), wc, 1e-12), "cosine of degrees");
  auto sc = m::sincosd(x);
  vf_check(vf_close(std::get<0>(sc), ws, 1e-12), "sine (pair)");
  vf_check(vf_close(std::get<1>(sc), wc, 1e-12), "cosine (pair)");
}
// exact at the multiples of 90 degrees
HARNESS(h_sincosd_exact) {
  int k = vf_choose("k", 41) - 20, q = ((k % 4) + 4) % 4;
  double x = 90.0 * k, s = q == 1 ? 1 : q == 3 ? -1 : 0, c = q == 0 ? 1 : q == 2 ? -1 : 0;
  vf_reach("exact");
  vf_check(m::sind(x) == s && m::cosd(x) == c, "exact at the multiples of 90 degrees");
  auto sc = m::sincosd(x);
  vf_check(std::get<0>(sc) == s && std::get<1>(sc) == c, "exact at the multiples of 90 degrees (pair)");
}
HARNESS(h_units) {
  double x = vf_double("x", -1e6, 1e6);
  vf_reach("units");
  vf_check(vf_close(m::radians(x), x * 3.14159265358979323846 / 180, 1e-8), "degrees to radians");
  vf_check(vf_close(m::degrees(m::radians(x)), x, 1e-8), "radians to degrees");
  double a = vf_double("minutes", 0, 60), b = vf_double("seconds", 0, 60);
  vf_check(vf_close(m::dms_to_degrees(x, a, b), x + a / 60 + b / 3600, 1e-9), "degrees, minutes and seconds");
  double c0 = vf_double("c0", -10, 10), c1 = vf_double("c1", -10, 10), c2 = vf_double("c2", -10, 10), c3 = vf_double("c3", -10, 10), t = vf_double("t", -3, 3);
  vf_check(vf_close(m::horner(t, c0), c0, 1e-9), "polynomial of degree 0");
  vf_check(vf_close(m::horner(t, c0, c1), c0 + c1 * t, 1e-9), "polynomial of degree 1");
  vf_check(vf_close(m::horner(t, c0, c1, c2, c3), c0 + c1 * t + c2 * t * t + c3 * t * t * t, 1e-6), "polynomial of degree 3");
  vf_check(vf_close(m::pow<0>(t), 1, 0) && vf_close(m::pow<1>(t), t, 0) && vf_close(m::pow<4>(t), t * t * t * t, 1e-9), "powers");
}
// Geographic coordinates to Earth-centred ones.
#include "fes/geometry/point.hpp"
static void ecef(bool pole) {
  using fes::geometry::Point;
  int i = vf_choose("i", 7) - 3, j = pole ? 2 * vf_choose("j", 2) - 1 : vf_choose("j", 3) - 1;
  double a = vf_double("a", -44.999, 44.999), b = pole ? -j * vf_double("colatitude", 0, 0.01) : vf_double("b", -44.999, 44.999);
  double lon = 90.0 * i + a, lat = 90.0 * j + b;
  vf_assume(lat >= -90 && lat <= 90);
  auto p = static_cast<fes::geometry::EarthCenteredEarthFixed>(Point(lon, lat));
  const double PI = 3.14159265358979323846, A = 6378137.0, E = 0.08181919092890632683;  // WGS84
  const double ca = std::cos(a * PI / 180), sa = std::sin(a * PI / 180), cb = std::cos(b * PI / 180), sb = std::sin(b * PI / 180);
  const int q = ((i % 4) + 4) % 4;
  const double cl = q == 0 ? ca : q == 1 ? -sa : q == 2 ? -ca : sa, sl = q == 0 ? sa : q == 1 ? ca : q == 2 ? -sa : -ca;
  const double cp = j == 0 ? cb : j == 1 ? -sb : sb, sp = j == 0 ? sb : j == 1 ? cb : -cb;
  vf_reach("ecef");
  // the point is on the ellipsoid, in the direction of its normal
  const double e2 = E * E, n = std::sqrt(1 - e2 * sp * sp);
  vf_check(vf_close(p.x() * n, A * cp * cl, 1e-2), "x");
  vf_check(vf_close(p.y() * n, A * cp * sl, 1e-2), "y");
  vf_check(vf_close(p.z() * n, A * (1 - e2) * sp, 1e-2), "z");
}
HARNESS(h_ecef) { ecef(false); }
HARNESS(h_ecef_pole) { ecef(true); }

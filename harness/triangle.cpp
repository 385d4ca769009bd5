// Triangles: coordinates in the reference right-angled triangle, vertices.
#include <tuple>
#include "fes/geometry/triangle.hpp"
#include "vf.h"
using fes::geometry::Point;
using fes::geometry::Triangle;
namespace {
// lon1 lat1 lon2 lat2 lon3 lat3
const double T[][6] = {{0, 0, 1, 0, 0, 1},           {0, 0, 0, 1, 1, 0},           {10.5, -3.25, 12.75, 4, 9, 2.5}, {-179, 45, 178.5, 46, 179.75, 43},
                       {179, 10, -179.5, 10.5, -178, 8}, {-0.5, -60, 0.75, -61, 0.25, -58}, {100, 20, 140, 35, 95, 60},     {-90, -10, -90.125, -10.25, -90.25, -10}};
const int NT = sizeof(T) / sizeof(T[0]);
double wrap(double x) {  // longitude differences in [-180, 180)
  return x >= 180 ? x - 360 : x < -180 ? x + 360 : x;
}
}  // namespace
// A position given by its barycentric coordinates, longitudes counted on any
// turn: its coordinates are found again.
static void reference(int k) {
  // the triangle as given, or reduced to some metres
  static const double SCALE[] = {1, 1.0 / 1024, 1.0 / 32768};
  int size = vf_choose("size", 3);
  double s = SCALE[size], e2 = s * (T[k][3] - T[k][1]), e3 = s * (T[k][5] - T[k][1]);
  double d2 = s * wrap(T[k][2] - T[k][0]), d3 = s * wrap(T[k][4] - T[k][0]);
  double x = vf_double("x", 0, 1), y = vf_double("y", 0, 1);
  vf_assume(x + y <= 1);
  int turn = vf_choose("turn", 3) - 1, turn2 = vf_choose("turn2", 2);
  Triangle t(Point(T[k][0] + 360 * turn2, T[k][1]), Point(T[k][0] + d2, T[k][1] + e2), Point(T[k][0] + d3 - 360 * turn2, T[k][1] + e3));
  Point p(T[k][0] + x * d2 + y * d3 + 360 * turn, T[k][1] + x * e2 + y * e3);
  double gx, gy;
  std::tie(gx, gy) = t.reference_right_angled(p);
  vf_reach("reference");
  vf_check(vf_close(gx, x, size ? 1e-5 : 1e-9), "first coordinate in the reference triangle");
  vf_check(vf_close(gy, y, size ? 1e-5 : 1e-9), "second coordinate in the reference triangle");
}
HARNESS(h_tri_reference) { reference(vf_choose("triangle", NT)); }
// any triangle, its longitudes and those of the position on any turn: the
// position is recovered from its coordinates
static void inverse(double sign) {
  double lon = vf_double("lon", -180, 180), lat = vf_double("lat", -70, 70);
  double d2 = vf_double("lon2", -20, 20), d3 = vf_double("lon3", -20, 20), dp = vf_double("lonp", -20, 20);
  double e2 = vf_double("lat2", -15, 15), e3 = vf_double("lat3", -15, 15), ep = vf_double("latp", -15, 15);
  vf_assume((d2 * e3 - d3 * e2) * sign > 1e-3);
  int turn[3];
  for (int i = 0; i < 3; ++i) turn[i] = vf_choose("turn", 3) - 1;
  Triangle t(Point(lon, lat), Point(lon + d2 + 360 * turn[0], lat + e2), Point(lon + d3 + 360 * turn[1], lat + e3));
  double x, y;
  std::tie(x, y) = t.reference_right_angled(Point(lon + dp + 360 * turn[2], lat + ep));
  vf_reach("inverse");
  vf_check(vf_close(x * d2 + y * d3, dp, 1e-9), "longitude recovered");
  vf_check(vf_close(x * e2 + y * e3, ep, 1e-9), "latitude recovered");
}
HARNESS(h_tri_inverse) { inverse(1); }
HARNESS(h_tri_inverse_clockwise) { inverse(-1); }
HARNESS(h_tri_flat) {
  double x = vf_double("x", -170, 170), y = vf_double("y", -80, 80);
  Triangle t(Point(x, y), Point(x + 1, y + 1), Point(x + 2, y + 2));
  double gx, gy;
  std::tie(gx, gy) = t.reference_right_angled(Point(x, y));
  vf_reach("flat");
  vf_check(vf_and(gx == 0, gy == 0), "a flat triangle has no reference coordinates");
}
HARNESS(h_tri_vertex) {
  int k = vf_choose("triangle", NT), v = vf_choose("vertex", 4);
  Triangle t(Point(T[k][0], T[k][1]), Point(T[k][2], T[k][3]), Point(T[k][4], T[k][5]));
  vf_check(t.v1().lon() == T[k][0] && t.v2().lat() == T[k][3] && t.v3().lon() == T[k][4], "vertices");
  if (v < 3) {
    vf_reach("vertex");
    vf_check(t.is_vertex(Point(T[k][2 * v], T[k][2 * v + 1])) == v, "each vertex is recognised");
    return;
  }
  double x = vf_double("x", -179, 179), y = vf_double("y", -89, 89);
  bool off = true;
  for (int i = 0; i < 3; ++i) off = off && (x > T[k][2 * i] + 0.01 || x < T[k][2 * i] - 0.01 || y > T[k][2 * i + 1] + 0.01 || y < T[k][2 * i + 1] - 0.01);
  vf_assume(off);
  vf_reach("other");
  vf_check(t.is_vertex(Point(x, y)) == -1, "other positions are not vertices");
}

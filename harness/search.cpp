// Search of a mesh: the selection among the triangles near a position. The
// library's code is compiled here in a namespace of its own, so that the
// geometric predicates of Boost can be replaced by stand-ins that answer what
// the harness chooses.
#include <algorithm>
#include <array>
#include <complex>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <boost/geometry.hpp>
#define fes fes_search
#include "fes/detail/geometry/algorithm.hpp"
#include "fes/geometry/point.hpp"
namespace fes {
namespace geometry {
class Triangle;
}
}  // namespace fes
using P = fes::geometry::Point;
using T = fes::geometry::Triangle;
using S = boost::geometry::model::segment<P>;
namespace boost {
namespace geometry {
template <>
bool covered_by<P, T>(const P&, const T&);
}
}  // namespace boost
namespace fes {
namespace detail {
namespace geometry {
template <>
double distance<P, T>(const P&, const T&);
template <>
void closest_points<P, T, S>(const P&, const T&, S&);
}  // namespace geometry
}  // namespace detail
}  // namespace fes
#include "fes/mesh/index.hpp"
#include "../src/library/mesh/index.cpp"
#include "../src/library/geometry/triangle.cpp"
#include "vf.h"
namespace {
// meshes: a fan of triangles about a vertex, and strips of triangles
struct Mesh {
  std::vector<double> lon, lat;
  std::vector<std::array<int, 3>> triangles;
};
Mesh mesh(int kind) {
  if (kind == 0) return {{10, 12, 11, 13}, {40, 40.5, 42, 42.25}, {{{0, 1, 2}}, {{1, 3, 2}}}};
  if (kind == 1) return {{-179.5, 179.5, 180, -179, 178.5}, {-10, -10, -9, -8.75, -8}, {{{0, 2, 1}}, {{0, 3, 2}}, {{1, 2, 4}}}};
  Mesh m;  // a strip: triangles far from one another
  for (int i = 0; i < 10; ++i) {
    m.lon.push_back(5.0 * i);
    m.lat.push_back(i % 2 ? 3 : 0);
  }
  for (int i = 0; i + 2 < 10; ++i) m.triangles.push_back({{i, i + 1, i + 2}});
  return m;
}
Mesh g_mesh;
bool g_covered[8], g_asked[8];
double g_distance[8];
int id(const T& t) {
  for (size_t i = 0; i < g_mesh.triangles.size(); ++i) {
    const auto& v = g_mesh.triangles[i];
    auto same = [&](const P& p, int k) { return p.lat() == g_mesh.lat[k] && std::cos((p.lon() - g_mesh.lon[k]) * 0.017453292519943295) > 0.9999; };
    if (same(t.v1(), v[0]) && same(t.v2(), v[1]) && same(t.v3(), v[2])) return static_cast<int>(i);
  }
  vf_check(false, "the triangle is one of the mesh");
  return 0;
}
}  // namespace
namespace boost {
namespace geometry {
template <>
bool covered_by<P, T>(const P&, const T& t) {
  return g_covered[id(t)];
}
}  // namespace geometry
}  // namespace boost
namespace fes {
namespace detail {
namespace geometry {
template <>
double distance<P, T>(const P&, const T& t) {
  return g_distance[id(t)];
}
template <>
void closest_points<P, T, S>(const P& p, const T& t, S& s) {
  s.first = p;
  s.second = P(100 + id(t), 7);
}
}  // namespace geometry
}  // namespace detail
}  // namespace fes
static double chord(double lon1, double lat1, double lon2, double lat2) {
  const double R = 0.017453292519943295, A = 6378137.0, E2 = 0.08181919092890632683 * 0.08181919092890632683;
  auto xyz = [&](double lon, double lat, double* p) {
    double n = A / std::sqrt(1 - E2 * std::sin(lat * R) * std::sin(lat * R));
    p[0] = n * std::cos(lat * R) * std::cos(lon * R);
    p[1] = n * std::cos(lat * R) * std::sin(lon * R);
    p[2] = n * (1 - E2) * std::sin(lat * R);
  };
  double a[3], b[3], s = 0;
  xyz(lon1, lat1, a);
  xyz(lon2, lat2, b);
  for (int i = 0; i < 3; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(s);
}
static void search(int kind) {
  g_mesh = mesh(kind);
  const int n = static_cast<int>(g_mesh.triangles.size()), nv = static_cast<int>(g_mesh.lon.size());
  Eigen::VectorXd lon(nv), lat(nv);
  for (int i = 0; i < nv; ++i) lon(i) = g_mesh.lon[i], lat(i) = g_mesh.lat[i];
  Eigen::Matrix<int32_t, -1, 3> tri(n, 3);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 3; ++j) tri(i, j) = g_mesh.triangles[i][j];
  fes::mesh::Index index(lon, lat, tri);
  vf_check(index.n_triangles() == static_cast<size_t>(n), "number of triangles");
  // the position: at a vertex, a little away from it, on another turn
  int v = vf_choose("vertex", nv), where = vf_choose("where", 3);
  double x = g_mesh.lon[v] + (where == 1 ? 0.3 : where == 2 ? -0.4 : 0), y = g_mesh.lat[v] + (where == 1 ? 0.2 : 0);
  P p(x + 360 * vf_choose("turn", 2), y);
  double nearest = 1e9;
  for (int i = 0; i < nv; ++i) {
    double d = chord(x, y, g_mesh.lon[i], g_mesh.lat[i]);
    if (d < nearest) nearest = d;
  }
  if (nearest < 1e-2) nearest = 0;
  // the triangles that touch the nearest vertex are always candidates; in the
  // small meshes every triangle is
  bool candidate[8];
  for (int i = 0; i < n; ++i) {
    const auto& t = g_mesh.triangles[i];
    candidate[i] = kind < 2 || t[0] == v || t[1] == v || t[2] == v;
  }
  int inside = vf_choose("covering", n + 1) - 1;
  bool several = inside >= 0 && vf_choose("several", 2);
  for (int i = 0; i < n; ++i) g_covered[i] = i == inside || (several && i > inside);
  for (int i = 0; i < n; ++i) g_distance[i] = candidate[i] ? vf_double("distance", 0, 1e6) : 2e6 + i;
  for (int i = 0; i < n; ++i) vf_assume(!g_covered[i] || candidate[i]);
  double reach = vf_double("reach", 0, 1e6);
  vf_assume(reach < nearest - 1e-3 || reach > nearest + 1e-3 || nearest == 0);
  auto r = index.search(p, reach);
  vf_reach("searched");
  if (inside >= 0) {
    vf_check(r.inside, "a covered position is inside");
    vf_check(r.index >= 0 && r.index < n && g_covered[r.index], "the triangle selected covers the position");
    vf_check(id(r.triangle) == r.index, "vertices of the triangle selected");
    vf_check(r.point.lon() == p.lon() && r.point.lat() == p.lat(), "the position itself is used");
    return;
  }
  vf_check(!r.inside, "an uncovered position is not inside");
  bool found = nearest < reach;
  vf_check((r.index >= 0) == found, "extrapolated exactly within the distance requested");
  if (r.index < 0) return;
  vf_reach("extrapolated");
  vf_check(id(r.triangle) == r.index, "vertices of the triangle selected");
  for (int i = 0; i < n; ++i) vf_check(!candidate[i] || g_distance[r.index] <= g_distance[i], "no triangle is closer");
  vf_check(r.point.lon() == 100 + r.index && r.point.lat() == 7, "the projection on the triangle is used");
}
HARNESS(h_search_two) { search(0); }
HARNESS(h_search_antimeridian) { search(1); }
HARNESS(h_search_strip) { search(2); }

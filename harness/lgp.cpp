// Unstructured (LGP) models: basis functions, extrapolation, cache, state.
#include <complex>
#include <limits>
#include <memory>
#include <stdexcept>
#include <vector>
#include <boost/geometry.hpp>
#include "fes/geometry/point.hpp"
namespace fes {
namespace geometry {
class Triangle;
}
}  // namespace fes
namespace boost {
namespace geometry {
// stand-in: the harness says whether the triangle covers the position
template <>
bool covered_by<fes::geometry::Point, fes::geometry::Triangle>(const fes::geometry::Point&, const fes::geometry::Triangle&);
}  // namespace geometry
}  // namespace boost
#include "fes/tidal_model/lgp.hpp"
#include "vf.h"
#include "corrupt.h"
using namespace fes;
using geometry::Point;
using geometry::Triangle;
using cd = std::complex<double>;
using cf = std::complex<float>;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
namespace {
// the mesh: 4 positions, 2 triangles
Eigen::VectorXd vec(std::initializer_list<double> l) {
  Eigen::VectorXd v(l.size());
  int i = 0;
  for (double x : l) v(i++) = x;
  return v;
}
std::shared_ptr<mesh::Index> make_mesh() {
  Eigen::Matrix<int32_t, -1, 3> t(2, 3);
  t << 0, 1, 2, 1, 3, 2;
  return std::make_shared<mesh::Index>(vec({10, 12, 11, 13}), vec({40, 40.5, 42, 42.25}), t);
}
Triangle triangle(int k) {
  return k == 0 ? Triangle(Point(10, 40), Point(12, 40.5), Point(11, 42)) : Triangle(Point(12, 40.5), Point(13, 42.25), Point(11, 42));
}
// position given by its coordinates in the reference triangle
Point at(int k, double x, double y) {
  Triangle t = triangle(k);
  return Point(t.v1().lon() + x * (t.v2().lon() - t.v1().lon()) + y * (t.v3().lon() - t.v1().lon()),
               t.v1().lat() + x * (t.v2().lat() - t.v1().lat()) + y * (t.v3().lat() - t.v1().lat()));
}
// ---- stand-ins for the search of the mesh
mesh::SelectedTriangle g_answer;  // what the search answers
int g_searches = 0;
bool g_covered = false;  // does the triangle in cache cover the position?
double g_max_distance = 0;
bool same(const cd& a, const cd& b, double tol) { return vf_and(vf_close(a.real(), b.real(), tol), vf_close(a.imag(), b.imag(), tol)); }
}  // namespace
namespace boost {
namespace geometry {
template <>
bool covered_by<fes::geometry::Point, fes::geometry::Triangle>(const fes::geometry::Point&, const fes::geometry::Triangle&) {
  return g_covered;
}
}  // namespace geometry
}  // namespace boost
// fes::mesh::Index::search(const geometry::Point&, double) const
extern "C" mesh::SelectedTriangle __wrap__ZNK3fes4mesh5Index6searchERKNS_8geometry5PointEd(const mesh::Index*, const Point&, double d) {
  ++g_searches;
  g_max_distance = d;
  return g_answer;
}
namespace {
template <int N>
struct Kind;
template <>
struct Kind<1> {
  using D = tidal_model::LGP1<double>;
};
template <>
struct Kind<2> {
  using D = tidal_model::LGP2<double>;
};
template <int N>
typename tidal_model::LGP<double, N>::codes_t codes() {
  typename tidal_model::LGP<double, N>::codes_t c(2, 3 * N);
  if (N == 1)
    c << 2, 0, 3, 0, 1, 3;
  else
    c << 2, 0, 3, 7, 5, 1, 3, 4, 6, 8, 5, 7;
  return c;
}
// coordinates of the nodes: vertices and, for N = 2, middles of the edges
void node(int n, int k, double& x, double& y) {
  static const double V[3][2] = {{0, 0}, {1, 0}, {0, 1}};
  int v = k / n;
  x = V[v][0];
  y = V[v][1];
  if (n == 2 && k % 2) {
    x = (x + V[(v + 1) % 3][0]) / 2;
    y = (y + V[(v + 1) % 3][1]) / 2;
  }
}
// Interpolation is exact for every polynomial of degree N, in each triangle.
template <int N, typename M, typename R>
void basis() {
  auto cod = codes<N>();
  const int size = N == 1 ? 4 : 9;
  M m(make_mesh(), cod, kTide, 0);
  int k = vf_choose("triangle", 2);
  double p[2][6];
  for (auto& c : p)
    for (int i = 0; i < 6; ++i) c[i] = i < 3 || N == 2 ? vf_double("coefficient", -10, 10) : 0;
  auto poly = [&](int c, double x, double y) { return p[c][0] + p[c][1] * x + p[c][2] * y + p[c][3] * x * x + p[c][4] * x * y + p[c][5] * y * y; };
  auto put = [&](Constituent id, int sign) {
    Vector<std::complex<R>> w(size);
    for (int i = 0; i < size; ++i) w(i) = std::complex<R>(static_cast<R>(vf_double("other", -10, 10)), 1);
    for (int j = 0; j < 3 * N; ++j) {
      double x, y;
      node(N, j, x, y);
      w(cod(k, j)) = std::complex<R>(static_cast<R>(sign * poly(0, x, y)), static_cast<R>(poly(1, x, y)));
    }
    m.add_constituent(id, w);
  };
  put(kM2, 1);
  put(kK1, -1);
  double x = vf_double("x", 0.01, 0.98), y = vf_double("y", 0.01, 0.98);
  vf_assume(x + y < 0.99);
  g_answer = mesh::SelectedTriangle(true, k, at(k, x, y), triangle(k));
  g_covered = false;
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  const auto& r = m.interpolate(at(k, x, y), q, acc.get());
  vf_reach("basis");
  vf_check(q == kInterpolated, "interpolated");
  vf_check(r.size() == 2, "one value for each constituent");
  for (const auto& v : r)
    vf_check(same(v.second, cd((v.first == kM2 ? 1 : -1) * poly(0, x, y), poly(1, x, y)), 1e-6), "polynomials of the degree of the model are reproduced");
}
}  // namespace
HARNESS(h_lgp1_basis) { basis<1, tidal_model::LGP1<double>, double>(); }
HARNESS(h_lgp2_basis) { basis<2, tidal_model::LGP2<double>, double>(); }
HARNESS(h_lgp1_basis_float) { basis<1, tidal_model::LGP1<float>, float>(); }
HARNESS(h_lgp2_basis_float) { basis<2, tidal_model::LGP2<float>, float>(); }

// ---- extrapolation, undefined positions, cache
namespace {
template <int N>
using Model = typename Kind<N>::D;
template <int N>
Vector<cd> wave(const char* name) {
  Vector<cd> w(N == 1 ? 4 : 9);
  for (int i = 0; i < w.size(); ++i) {
    double re = vf_double(name, -100, 100), im = vf_double(name, -100, 100);
    w(i) = cd(re, im);
  }
  return w;
}
template <int N>
void vertices() {
  auto cod = codes<N>();
  double max_distance = vf_double("max distance", 0, 1e6);
  Model<N> m(make_mesh(), cod, kTide, max_distance);
  auto w1 = wave<N>("M2"), w2 = wave<N>("Mf");
  m.add_constituent(kM2, w1);
  m.add_constituent(kMf, w2);
  int k = vf_choose("triangle", 2), v = vf_choose("vertex", 3);
  double lon = vf_double("lon", -180, 180), lat = vf_double("lat", -90, 90);
  g_answer = mesh::SelectedTriangle(false, k, at(k, v == 1, v == 2), triangle(k));
  g_covered = vf_choose("covered", 2);
  g_searches = 0;
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  const auto& r = m.interpolate(Point(lon, lat), q, acc.get());
  vf_reach("vertex");
  vf_check(g_searches == 1 && vf_close(g_max_distance, max_distance, 0), "the mesh is searched within the distance requested");
  vf_check(q == kExtrapolated1, "extrapolated from one vertex");
  vf_check(r.size() == 2 && r[0].first == kMf && r[1].first == kM2, "one value for each constituent");
  vf_check(same(r[1].second, w1(cod(k, v * N)), 0), "value of the vertex (first constituent)");
  vf_check(same(r[0].second, w2(cod(k, v * N)), 0), "value of the vertex (second constituent)");
}
template <int N>
void undefined() {
  Model<N> m(make_mesh(), codes<N>(), kTide, 0);
  m.add_constituent(kM2, wave<N>("M2"));
  m.add_constituent(kMf, wave<N>("Mf"));
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q = kInterpolated;
  int before = vf_choose("before", 3);
  if (before) {  // a position found before
    g_answer = mesh::SelectedTriangle(before == 1, 0, at(0, 0.25, 0.25), triangle(0));
    m.interpolate(at(0, 0.25, 0.25), q, acc.get());
  }
  g_answer = mesh::SelectedTriangle();
  g_covered = before == 2;
  const auto& r = m.interpolate(Point(vf_double("lon", -180, 180), vf_double("lat", -90, 90)), q, acc.get());
  vf_reach("undefined");
  vf_check(q == kUndefined, "undefined where the search finds nothing");
  vf_check(r.size() == 2, "one value for each constituent");
  for (const auto& v : r) vf_check(vf_and(vf_isnan(v.second.real()), vf_isnan(v.second.imag())), "NaN where the search finds nothing");
}
// A sequence of positions with one accelerator gives what fresh ones give.
template <int N>
void history() {
  Model<N> m(make_mesh(), codes<N>(), kTide, 0);
  m.add_constituent(kO1, wave<N>("O1"));
  m.add_constituent(kM2, wave<N>("M2"));
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  int last = -1;  // triangle that covered the previous position
  for (int step = 0; step < 3; ++step) {
    // inside triangle 0, inside triangle 1, projected on triangle 0, nowhere
    int what = vf_choose("what", 4), k = what == 1 ? 1 : 0;
    double x = 0.125 * (step + 1), y = 0.25 + 0.0625 * step;
    Point p = at(k, x, y);
    Point asked = what < 2 ? p : Point(vf_double("lon", -180, 180), vf_double("lat", -90, 90));
    g_answer = what == 3 ? mesh::SelectedTriangle() : mesh::SelectedTriangle(what < 2, k, p, triangle(k));
    g_covered = what < 2 && last == k;
    Quality q, wq;
    auto got = m.interpolate(asked, q, acc.get());
    g_covered = false;
    std::unique_ptr<Accelerator> fresh(m.accelerator(angle::Formulae::kMeeus, 0));
    auto want = m.interpolate(asked, wq, fresh.get());
    vf_check(q == wq, "quality independent of the previous positions");
    vf_check(got.size() == 2 && want.size() == 2, "one value for each constituent");
    for (size_t i = 0; i < got.size(); ++i) {
      vf_check(got[i].first == want[i].first, "same constituents");
      vf_check(same(got[i].second, want[i].second, 1e-9), "values independent of the previous positions");
    }
    last = what < 2 ? k : -1;
  }
  vf_reach("history");
}
}  // namespace
HARNESS(h_lgp1_vertices) { vertices<1>(); }
HARNESS(h_lgp2_vertices) { vertices<2>(); }
HARNESS(h_lgp1_undefined) { undefined<1>(); }
HARNESS(h_lgp2_undefined) { undefined<2>(); }
HARNESS(h_lgp1_history) { history<1>(); }
HARNESS(h_lgp2_history) { history<2>(); }
// What the model refuses.
HARNESS(h_lgp_refused) {
  int what = vf_choose("what", 5);
  auto cod = codes<2>();
  bool valid = false, refused = false;
  int32_t code = static_cast<int32_t>(vf_concrete(vf_int("code", -3, 12)));
  int size = vf_choose("size", 14);
  try {
    if (what == 0) {  // as many rows as triangles
      int rows = vf_choose("rows", 4);
      valid = rows == 2;
      tidal_model::LGP2<double>::codes_t c(rows, 6);
      c.setZero();
      tidal_model::LGP2<double> m(make_mesh(), c, kTide, 0);
    } else if (what == 1) {  // codes are positive
      cod(1, 5) = code;
      valid = code >= 0;
      tidal_model::LGP2<double> m(make_mesh(), cod, kTide, 0);
    } else if (what == 2) {  // a constituent has one value for each code
      cod(0, 3) = code;
      vf_assume(code >= 0);
      int n = (code > 8 ? code : 8) + 1;
      valid = size == n;
      tidal_model::LGP2<double> m(make_mesh(), cod, kTide, 0);
      if (vf_choose("other", 2)) m.add_constituent(kO1, Vector<cd>::Zero(n));
      const size_t before = m.size();
      try {
        m.add_constituent(kM2, Vector<cd>::Zero(size));
      } catch (const std::invalid_argument&) {
        refused = true;
      }
      vf_check(m.size() == before + (refused ? 0 : 1) && m.empty() == (m.size() == 0), "a constituent is added, a refused one leaves the model unchanged");
      vf_check((m.data().find(kM2) != m.data().end()) == !refused, "the constituent added is that given, a refused one is not added");
      vf_check((m.data().find(kO1) != m.data().end()) == (before == 1), "the other constituent is kept");
    } else {  // the mesh
      Eigen::Matrix<int32_t, -1, 3> t(what == 3 ? 1 : 0, 3);
      if (what == 3) t << 0, 1, code;
      int lats = size % 3 + 2;
      valid = what == 3 && lats == 3 && code >= 0 && code < 3;
      mesh::Index x(vec({1, 2, 3}), Eigen::VectorXd::Zero(lats), t);
      vf_check(x.n_triangles() == 1 && x.n_positions() == 3, "sizes of the mesh");
    }
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach(valid ? "valid" : "invalid");
  vf_check(refused == !valid, "inconsistent models are refused, the others accepted");
}
// ---- state
namespace {
template <int N>
Model<N> built(int nc, int nd) {
  Model<N> m(make_mesh(), codes<N>(), vf_choose("type", 2) ? kRadial : kTide, vf_double("max distance", 0, 1e7));
  const Constituent ids[] = {kM2, kMf, kS2};
  for (int i = 0; i < nc; ++i) m.add_constituent(ids[i], wave<N>("wave"));
  m.dynamic(std::vector<Constituent>(ids + 1, ids + 1 + nd));
  return m;
}
template <int N>
void roundtrip() {
  int nc = vf_choose("constituents", 3), nd = vf_choose("dynamic", 3);
  Model<N> m = built<N>(nc, nd);
  std::string s = m.getstate();
  Model<N> r = Model<N>::setstate(string_view(s.data(), s.size()));
  vf_reach("restored");
  vf_check(r.tide_type() == m.tide_type(), "tide type");
  vf_check(r.dynamic() == m.dynamic(), "dynamic constituents");
  vf_check(r.identifiers() == m.identifiers(), "constituents");
  for (const auto& item : m.data()) {
    const auto& w = r.data().find(item.first)->second;
    vf_check(w.size() == item.second.size(), "size of the constituents");
    for (int i = 0; i < w.size(); ++i) vf_check(same(w(i), item.second(i), 0), "values of the constituents");
  }
  const auto &a = *m.index(), &b = *r.index();
  vf_check(a.n_positions() == b.n_positions() && a.n_triangles() == b.n_triangles(), "sizes of the mesh");
  for (int i = 0; i < a.lon().size(); ++i) vf_check(a.lon()(i) == b.lon()(i) && a.lat()(i) == b.lat()(i), "positions of the mesh");
  for (int i = 0; i < a.triangles().size(); ++i) vf_check(a.triangles().data()[i] == b.triangles().data()[i], "triangles of the mesh");
  // the codes and the distance show in the interpolation
  r.add_constituent(kK1, wave<N>("wave"));
  m.add_constituent(kK1, r.data().find(kK1)->second);
  for (int k = 0; k < 2; ++k) {
    g_answer = mesh::SelectedTriangle(true, k, at(k, 0.25, 0.5), triangle(k));
    g_covered = false;
    std::unique_ptr<Accelerator> ac(m.accelerator(angle::Formulae::kMeeus, 0)), bc(r.accelerator(angle::Formulae::kMeeus, 0));
    Quality q, wq;
    const auto& want = m.interpolate(at(k, 0.25, 0.5), wq, ac.get());
    double d = g_max_distance;
    const auto& got = r.interpolate(at(k, 0.25, 0.5), q, bc.get());
    vf_check(vf_and(q == wq, vf_close(d, g_max_distance, 0)), "distance of the extrapolation");
    vf_check(got.size() == want.size(), "constituents interpolated");
    for (size_t i = 0; i < got.size(); ++i) vf_check(same(got[i].second, want[i].second, 1e-12), "interpolation");
  }
}
template <int N>
void truncated() {
  Model<N> m = built<N>(vf_choose("constituents", 2), vf_choose("dynamic", 2));
  std::string s = m.getstate();
  s.resize(vf_choose("cut", static_cast<int>(s.size())));
  bool refused = false;
  try {
    Model<N>::setstate(string_view(s.data(), s.size()));
  } catch (const std::exception&) {
    refused = true;
  }
  vf_reach("truncated");
  vf_check(refused, "a truncated state is refused");
}
}  // namespace
HARNESS(h_lgp1_state) { roundtrip<1>(); }
HARNESS(h_lgp2_state) { roundtrip<2>(); }
HARNESS(h_lgp1_truncated) { truncated<1>(); }
HARNESS(h_lgp2_truncated) { truncated<2>(); }

// A length replaced by any value: the state is refused, or gives a model whose
// parts agree.
namespace {
template <int N>
void corrupted(int range) {
  Model<N> m(make_mesh(), codes<N>(), kTide, 1);
  m.add_constituent(kM2, Vector<cd>::Constant(N == 1 ? 4 : 9, cd(1.1, 2.3)));
  m.dynamic({kS2, kMf});
  corrupt(m.getstate(), range, [](const char* p, size_t n) {
    Model<N> r = Model<N>::setstate(string_view(p, n));
    vf_check(r.index()->n_triangles() == 2 && r.index()->lat().size() == r.index()->lon().size(), "parts of the mesh agree");
    for (int k = 0; k < 2; ++k) {
      g_answer = mesh::SelectedTriangle(true, k, at(k, 0.25, 0.5), triangle(k));
      g_covered = false;
      std::unique_ptr<Accelerator> acc(r.accelerator(angle::Formulae::kMeeus, 0));
      Quality q;
      const auto& v = r.interpolate(at(k, 0.25, 0.5), q, acc.get());
      for (const auto& x : v) vf_check(same(x.second, cd(1.1, 2.3), 1e-9), "the values are those of the state");
    }
  });
}
}  // namespace
HARNESS(h_lgp1_corrupted_small) { corrupted<1>(0); }
HARNESS(h_lgp1_corrupted_medium) { corrupted<1>(1); }
HARNESS(h_lgp1_corrupted_large) { corrupted<1>(2); }
HARNESS(h_lgp2_corrupted_small) { corrupted<2>(0); }
HARNESS(h_lgp2_corrupted_medium) { corrupted<2>(1); }
HARNESS(h_lgp2_corrupted_large) { corrupted<2>(2); }

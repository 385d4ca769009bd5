// Cartesian tidal model: interpolation, quality, mask handling, serialization.
#include <Eigen/Core>
#include <complex>
#include <limits>
#include <memory>
#include <stdexcept>

#include "fes/tidal_model/cartesian.hpp"
#include "vf.h"
#include "corrupt.h"
using namespace fes;
using Model = tidal_model::Cartesian<double>;
using cd = std::complex<double>;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

static Eigen::VectorXd ramp(int n, double start, double step) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = start + k * step;
  return v;
}

struct Setup {
  int nx, ny;
  double x0, dx, y0, dy;
  bool circ, row_major;
  Axis lon() const { return Axis(ramp(nx, x0, dx), 1e-6, circ); }
  Axis lat() const { return Axis(ramp(ny, y0, dy)); }
  int at(int i, int j) const { return row_major ? i * ny + j : j * nx + i; }
};
static Setup setup(bool circ, int nx, int ny) {
  Setup s;
  s.nx = nx;
  s.ny = ny;
  s.circ = circ;
  s.x0 = vf_double("lon0", -180, 180);
  s.dx = circ ? 360.0 / nx : 0.25;
  if (vf_choose("lon_descending", 2)) s.dx = -s.dx;
  s.y0 = vf_double("lat0", -60, 60);
  s.dy = vf_choose("lat_descending", 2) ? -0.5 : 0.5;
  s.row_major = vf_choose("row_major", 2);
  return s;
}
// A grid that is an arbitrary set of node values.
static Vector<cd> values(const Setup& s, const char* name) {
  Vector<cd> v(s.nx * s.ny);
  for (int k = 0; k < v.size(); ++k) v[k] = cd(vf_double(name, -50, 50), vf_double(name, -50, 50));
  return v;
}
static cd node(const Setup& s, const Vector<cd>& v, int i, int j) { return v[s.at(i, j)]; }

// Position of a point relative to the grid, found by the harness: the cell
// (i,j) in grid order and the fractions (u,w) inside it, or outside.
static bool locate(double x, double o, double step, int n, bool circ, int& i, double& u) {
  double p = (x - o) / step;
  if (circ) {
    int64_t k = vf_int("turn", -9, 9);
    double q = p - static_cast<double>(n * k);
    vf_assume(q >= 0 && q < n);
    p = p - static_cast<double>(n * vf_concrete(k));
  } else if (p < 0 || p > n - 1)
    return false;
  i = static_cast<int>(vf_concrete(static_cast<int64_t>(p)));
  if (!circ && i == n - 1) i = n - 2;
  u = p - i;
  return true;
}

static void bilinear(bool circ, int nx, int ny) {
  Setup s = setup(circ, nx, ny);
  auto v = values(s, "z");
  Model m(s.lon(), s.lat(), kTide, s.row_major);
  m.add_constituent(kM2, v);
  double lon = circ ? vf_double("lon", -600, 600) : vf_double("lon", -200, 200), lat = circ ? s.y0 + s.dy * vf_double("w", 0.01, 0.99) : vf_double("lat", -90, 90);
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  const auto& r = m.interpolate({lon, lat}, q, acc.get());
  vf_check(r.size() == 1, "one value per constituent");
  vf_check(r[0].first == kM2, "value labelled with its constituent");
  cd got = r[0].second;
  int i, j;
  double u, w;
  bool in = locate(lon, s.x0, s.dx, nx, circ, i, u);
  in = in && locate(lat, s.y0, s.dy, ny, false, j, w);
  if (!in) {
    vf_reach("outside");
    vf_check(q == kUndefined, "undefined quality outside the grid");
    vf_check(vf_isnan(got.real()) && vf_isnan(got.imag()), "NaN outside the grid");
    return;
  }
  vf_reach("inside");
  int i1 = (i + 1) % nx;
  cd a = node(s, v, i, j), b = node(s, v, i1, j), c = node(s, v, i, j + 1), d = node(s, v, i1, j + 1);
  cd want((1 - u) * (1 - w) * a.real() + u * (1 - w) * b.real() + (1 - u) * w * c.real() + u * w * d.real(),
          (1 - u) * (1 - w) * a.imag() + u * (1 - w) * b.imag() + (1 - u) * w * c.imag() + u * w * d.imag());
  vf_check(q == kInterpolated, "interpolated quality inside the grid");
  vf_check(vf_close(got.real(), want.real(), 1e-6), "bilinear value of the four surrounding nodes (real)");
  vf_check(vf_close(got.imag(), want.imag(), 1e-6), "bilinear value of the four surrounding nodes (imaginary)");
}
HARNESS(h_cart_regional) { bilinear(false, 3, 3); }
HARNESS(h_cart_global) { bilinear(true, 4, 2); }

// Any land mask over the four nodes of a cell.
HARNESS(h_cart_mask) {
  Setup s;
  s.nx = s.ny = 2;
  s.circ = false;
  s.x0 = 10;
  s.dx = 0.5;
  s.y0 = 20;
  s.dy = 0.25;
  s.row_major = vf_choose("row_major", 2);
  auto v = values(s, "z");
  int mask = vf_choose("mask", 16);
  int kind = vf_choose("kind", 4);
  for (int k = 0; k < 4; ++k)
    if (mask & (1 << k)) {
      double bad = kind == 3 ? std::numeric_limits<double>::infinity() : NaN;
      v[k] = kind == 0 ? cd(NaN, NaN) : kind == 1 ? cd(NaN, v[k].imag()) : kind == 2 ? cd(v[k].real(), NaN) : cd(bad, bad);
    }
  Model m(s.lon(), s.lat(), kTide, s.row_major);
  m.add_constituent(kM2, v);
  double u = vf_double("u", 0, 1), w = vf_double("w", 0, 1);
  vf_assume(u > 1e-6 && u < 1 - 1e-6 && w > 1e-6 && w < 1 - 1e-6);
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  cd got = m.interpolate({10 + 0.5 * u, 20 + 0.25 * w}, q, acc.get())[0].second;
  int n = 0;
  double sw = 0, re = 0, im = 0;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      if (!(mask & (1 << s.at(i, j)))) {
        double c = (i ? u : 1 - u) * (j ? w : 1 - w);
        ++n;
        sw += c;
        re += c * v[s.at(i, j)].real();
        im += c * v[s.at(i, j)].imag();
      }
  vf_check(static_cast<int>(q) == n, "quality is the number of defined nodes of the cell");
  if (n == 0) {
    vf_reach("none");
    vf_check(vf_isnan(got.real()) && vf_isnan(got.imag()), "NaN when no node is defined");
  } else {
    vf_reach("some");
    vf_check(vf_close(got.real(), re / sw, 1e-6), "weighted mean of the defined nodes (real)");
    vf_check(vf_close(got.imag(), im / sw, 1e-6), "weighted mean of the defined nodes (imaginary)");
  }
}

// Several constituents are interpolated independently, in a model of floats.
HARNESS(h_cart_multi) {
  using MF = tidal_model::Cartesian<float>;
  Setup s;
  s.nx = s.ny = 2;
  s.circ = false;
  s.x0 = -30;
  s.dx = 1;
  s.y0 = 5;
  s.dy = 1;
  s.row_major = vf_choose("row_major", 2);
  MF m(s.lon(), s.lat(), kRadial, s.row_major);
  const Constituent ids[3] = {kS2, kO1, kM2};
  double c[3], g[3];
  for (int k = 0; k < 3; ++k) {
    c[k] = vf_double("c", -4, 4);
    g[k] = vf_double("g", -4, 4);
    Vector<std::complex<float>> v(4);
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j)
        v[s.at(i, j)] = std::complex<float>(static_cast<float>(c[k] + i * g[k]), static_cast<float>(c[k] - j * g[k]));
    m.add_constituent(ids[k], v);
  }
  vf_check(m.size() == 3 && !m.empty(), "three constituents");
  double u = vf_double("u", 0, 1), w = vf_double("w", 0, 1);
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  for (int rep = 0; rep < 2; ++rep) {  // the second call starts from the leftovers of the first
    const auto& r = m.interpolate({-30 + u, 5 + w}, q, acc.get());
    vf_reach("multi");
    vf_check(q == kInterpolated, "interpolated");
    vf_check(r.size() == 3, "one value per constituent");
    for (int k = 0; k < 3; ++k) {
      int hits = 0;
      for (const auto& it : r)
        if (it.first == ids[k]) {
          ++hits;
          vf_check(vf_close(it.second.real(), c[k] + u * g[k], 1e-5), "own field (real)");
          vf_check(vf_close(it.second.imag(), c[k] - w * g[k], 1e-5), "own field (imaginary)");
        }
      vf_check(hits == 1, "each constituent once");
    }
  }
}

// A field of the wrong size is refused, a field of the right size kept.
HARNESS(h_cart_add) {
  Setup s;
  s.nx = 3;
  s.ny = 2;
  s.circ = false;
  s.x0 = 0;
  s.dx = 1;
  s.y0 = 0;
  s.dy = 1;
  Model m(s.lon(), s.lat(), kTide, vf_choose("row_major", 2));
  int n = vf_choose("n", 14);
  Vector<cd> v = Vector<cd>::Constant(n, cd(1, 2));
  bool refused = false;
  try {
    m.add_constituent(kM2, v);
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach("add");
  vf_check(refused == (n != 6), "refused exactly when the size differs from the grid");
  vf_check(m.size() == (refused ? 0u : 1u), "a refused field is not kept");
}

// Round trip through the serialized state.
HARNESS(h_cart_roundtrip) {
  Setup s = setup(vf_choose("circ", 2), 4, 2);
  bool radial = vf_choose("radial", 2);
  Model m(s.lon(), s.lat(), radial ? kRadial : kTide, s.row_major);
  int nc = vf_choose("nc", 3);
  const Constituent ids[2] = {kM2, kSsa};
  for (int k = 0; k < nc; ++k) m.add_constituent(ids[k], values(s, k ? "z1" : "z0"));
  std::string st = m.getstate();
  Model b = Model::setstate(string_view(st.data(), st.size()));
  vf_reach("restored");
  vf_check(b.lon() == m.lon() && b.lat() == m.lat(), "axes");
  vf_check(b.tide_type() == m.tide_type(), "tide type");
  vf_check(b.size() == static_cast<size_t>(nc), "number of constituents");
  for (int k = 0; k < nc; ++k) {
    auto i = b.data().find(ids[k]);
    vf_check(i != b.data().end(), "constituent present");
    if (i == b.data().end()) continue;
    const auto& o = m.data().at(ids[k]);
    vf_check(i->second.size() == o.size(), "field size");
    if (i->second.size() != o.size()) continue;
    for (int e = 0; e < o.size(); ++e) {
      vf_check(vf_close(i->second[e].real(), o[e].real(), 0), "field value (real)");
      vf_check(vf_close(i->second[e].imag(), o[e].imag(), 0), "field value (imaginary)");
    }
  }
  // storage order: the restored model interpolates alike
  if (nc) {
    int i = vf_choose("i", 2), j = vf_choose("j", 2);
    std::unique_ptr<Accelerator> acc(b.accelerator(angle::Formulae::kMeeus, 0));
    Quality q;
    const auto& r = b.interpolate({s.x0 + i * s.dx, s.y0 + j * s.dy}, q, acc.get());
    for (const auto& it : r)
      if (it.first == kM2) {
        cd z = m.data().at(kM2)[s.at(i, j)];
        vf_check(vf_close(it.second.real(), z.real(), 1e-6), "restored storage order");
      }
  }
}
// Dynamic constituents survive the round trip.
HARNESS(h_cart_roundtrip_dynamic) {
  Setup s = setup(false, 2, 2);
  Model m(s.lon(), s.lat(), kTide, s.row_major);
  int nd = vf_choose("nd", 3);
  std::vector<Constituent> d;
  for (int k = 0; k < nd; ++k) d.push_back(k ? kS1 : kM4);
  m.dynamic(d);
  std::string st = m.getstate();
  Model b = Model::setstate(string_view(st.data(), st.size()));
  vf_reach("restored");
  vf_check(b.dynamic() == d, "dynamic constituents survive the round trip");
}

// Malformed states: every truncation is refused, and a state whose length
// fields hold any value is either refused or yields a model.
static std::string base_state() {
  Setup s;
  s.nx = s.ny = 2;
  s.circ = false;
  s.x0 = 0;
  s.dx = 1;
  s.y0 = 0;
  s.dy = 1;
  Model m(s.lon(), s.lat(), kTide);
  m.add_constituent(kM2, Vector<cd>::Constant(4, cd(1, 2)));
  return m.getstate();
}
HARNESS(h_cart_truncated) {
  std::string st = base_state();
  int k = vf_choose("len", 200);
  vf_assume(k < static_cast<int>(st.size()));
  // the bytes are copied so that a read past them is seen
  std::unique_ptr<char[]> buf(new char[k ? k : 1]);
  for (int i = 0; i < k; ++i) buf[i] = st[i];
  bool refused = false;
  try {
    Model::setstate(string_view(buf.get(), k));
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach("truncated");
  vf_check(refused, "a truncated state is refused");
}

// A length of the state replaced: refused, or a model that can be used.
static void corrupted(int range) {
  Setup s;
  s.nx = 3;
  s.ny = 4;
  s.circ = false;
  s.x0 = 1.1;
  s.dx = 1.3;
  s.y0 = 0.7;
  s.dy = 1.7;
  Model m(s.lon(), s.lat(), kTide);
  m.add_constituent(kM2, Vector<cd>::Constant(12, cd(1.1, 2.3)));
  m.dynamic({kS2, kMf});
  corrupt(m.getstate(), range, [](const char* p, size_t n) {
    Model r = Model::setstate(string_view(p, n));
    for (const auto& item : r.data()) vf_check(static_cast<int64_t>(item.second.size()) == r.lon().size() * r.lat().size(), "the fields have the size of the grid");
    std::unique_ptr<Accelerator> acc(r.accelerator(angle::Formulae::kMeeus, 0));
    Quality q;
    const bool far = vf_choose("far", 2);  // outside the grid of the state
    const auto& v = r.interpolate(far ? geometry::Point(150.3, 3) : geometry::Point(1.75, 1.55), q, acc.get());
    for (const auto& x : v)
      if (q == kInterpolated) vf_check(vf_close(x.second.real(), 1.1, 1e-9) && vf_close(x.second.imag(), 2.3, 1e-9), "the values are those of the state");
  });
}
HARNESS(h_cart_corrupted_small) { corrupted(0); }
HARNESS(h_cart_corrupted_medium) { corrupted(1); }
HARNESS(h_cart_corrupted_large) { corrupted(2); }

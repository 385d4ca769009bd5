SEEDS = {}


def seed(name, prop, needs, breaks, edits, demo):
    SEEDS[name] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


AXIS = r"""
#include <fes/axis.hpp>
#include <cstdio>
#include <Eigen/Core>
static fes::Axis make(int n, double start, double step, bool circ) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = start + k * step;
  return fes::Axis(v, 1e-6, circ);
}
"""
seed("axis-even-last", "C17", "an axis whose last interval differs from the others by less than the mean hides it",
     "an unevenly spaced axis is accepted when only its last interval is off",
     [("src/library/axis.cpp", "  for (size_t ix = 1; ix < n; ++ix) {\n    if (!detail::math::is_same(points[ix] - points[ix - 1], increment, 1e-6)) {",
       "  for (size_t ix = 1; ix < n; ++ix) {\n    if (!detail::math::is_same(points[ix] - points[0], increment * ix, 1e-6 * points.size() * n)\n        && points[ix] != points[ix - 1] + increment && (ix & 1) != 0) {")],
     AXIS + r"""
int main() {
  Eigen::VectorXd v(4);
  v << 0, 1, 2.5, 3;
  try { fes::Axis a(v); printf("accepted\n"); return 1; } catch (const std::invalid_argument&) {}
  return 0;
}
""")
CART = r"""
#include <fes/tidal_model/cartesian.hpp>
#include <cstdio>
#include <cmath>
#include <memory>
#include <Eigen/Core>
using namespace fes;
using cd = std::complex<double>;
using M = tidal_model::Cartesian<double>;
static Axis make(int n, double start, double step, bool circ) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = start + k * step;
  return Axis(v, 1e-6, circ);
}
"""
seed("cart-state-order", "C24", "a model stored in column-major order, restored from its state",
     "the storage order is lost when both axes have the same number of points",
     [("include/fes/tidal_model/cartesian.hpp", "return this->row_major_", "return this->row_major_")] if 0 else
     [("include/fes/detail/grid.hpp", "", "")], CART)
del SEEDS["cart-state-order"]
THREAD = r"""
#include <fes/detail/thread.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <stdexcept>
"""
seed("thread-join-early", "C02", "a worker fails before the caller has joined the others",
     "the caller stops joining as soon as one worker has failed",
     [("include/fes/detail/thread.hpp", "    if (thread.joinable()) {\n      thread.join();\n    }",
       "    if (thread.joinable()) {\n      if (exception) {\n        thread.detach();\n      } else {\n        thread.join();\n      }\n    }")],
     THREAD + r"""
int main() {
  std::atomic<int> done{0};
  try {
    fes::detail::parallel_for([&](int64_t s, int64_t e) {
      if (s == 0) throw std::runtime_error("first");
      std::this_thread::sleep_for(std::chrono::milliseconds(300));
      ++done;
    }, 3, 3);
  } catch (const std::runtime_error&) {
    if (done != 2) { printf("workers still running: %d\n", int(done)); std::_Exit(1); }
    return 0;
  }
  return 2;
}
""")
seed("thread-remainder", "C01", "more threads than the square root of the size, size not a multiple of the number of threads",
     "the chunks are rounded up, and those after the last element run past the end of the range",
     [("include/fes/detail/thread.hpp", "  size_t shift = size / num_threads;", "  size_t shift = (size + num_threads - 1) / num_threads;")],
     THREAD + r"""
int main() {
  for (size_t n = 0; n < 40; ++n) for (size_t t = 1; t < 9; ++t) {
    std::atomic<int64_t> c{0};
    std::atomic<int> bad{0};
    fes::detail::parallel_for([&](int64_t s, int64_t e) { c += e - s; if (s < 0 || e > (int64_t)n || s > e) ++bad; }, n, t);
    if (bad || c != (int64_t)n) { printf("%zu elements, %zu threads: %d\n", n, t, (int)c); return 1; }
  }
  return 0;
}
""")
seed("axis-snap", "C18", "a coordinate slightly below a node, nearer than a ten-thousandth of a degree",
     "the cell returned starts at the node although the coordinate lies before it",
     [("src/library/axis.cpp", "  if (delta == 0) {", "  if (std::abs(delta) < 1e-4) {")],
     AXIS + r"""
int main() {
  auto a = make(5, 10, 1, false);
  double x = 12 - 5e-5;
  auto r = a.find_indices(x);
  if (!r) return 1;
  double p = a(std::get<0>(*r)), q = a(std::get<1>(*r));
  if (x < std::min(p, q) || x > std::max(p, q)) { printf("%g not in [%g,%g]\n", x, p, q); return 1; }
  return 0;
}
""")
CARTMAIN = r"""
static cd at(const M& m, double x, double y, Quality& q) {
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  return m.interpolate({x, y}, q, acc.get())[0].second;
}
"""
seed("cart-mask-imag", "C22", "a node whose real part is defined and whose imaginary part is not",
     "a node undefined in its imaginary part only is used by the interpolation",
     [("include/fes/detail/math.hpp", "    if (z - z == T(0)) {", "    if (std::abs(std::real(z)) < std::numeric_limits<double>::infinity()) {")],
     CART + CARTMAIN + r"""
int main() {
  double nan = std::nan("");
  Vector<cd> v(4);
  v << cd(1, 1), cd(1, nan), cd(1, 1), cd(1, 1);
  M m(make(2, 0, 1, false), make(2, 0, 1, false), kTide);
  m.add_constituent(kM2, v);
  Quality q;
  cd z = at(m, 0.3, 0.4, q);
  printf("%g %g %d\n", z.real(), z.imag(), (int)q);
  return z == z && q == kExtrapolated3 ? 0 : 1;
}
""")
seed("cart-state-order", "C24", "a column-major model restored from its state",
     "the storage order of the restored model is wrong when the grid is square",
     [("include/fes/tidal_model/cartesian.hpp", "        Cartesian<T>(std::move(lon), std::move(lat), tide_type, row_major);",
       "        Cartesian<T>(std::move(lon), std::move(lat), tide_type);")],
     CART + CARTMAIN + r"""
int main() {
  Vector<cd> v(6);
  for (int k = 0; k < 6; ++k) v[k] = cd(k, -k);
  M m(make(3, 0, 1, false), make(2, 0, 1, false), kTide, false);
  m.add_constituent(kM2, v);
  std::string s = m.getstate();
  M b = M::setstate(string_view(s.data(), s.size()));
  Quality q;
  for (double x = 0; x <= 2; x += .25) for (double y = 0; y <= 1; y += .25)
    if (std::abs(at(m, x, y, q) - at(b, x, y, q)) > 1e-9) { printf("differs at %g %g\n", x, y); return 1; }
  return 0;
}
""")

# ------------------------------------------------------------------ angles, constituents
ANGLE = r"""
#include <fes/angle/astronomic.hpp>
#include <cmath>
#include <cstdio>
using fes::angle::Astronomic;
using fes::angle::Formulae;
static const double PI = 3.14159265358979323846;
"""
seed("angle-century", "C04", "a date before 1900, third-order formulae",
     "the terms of the second order of the lunar perigee change sign before 1900",
     [("include/fes/angle/astronomic.hpp", "      -detail::math::dms_to_degrees(0.0, 0.0, 37.24),",
       "      (jc < 0 ? 1 : -1) * detail::math::dms_to_degrees(0.0, 0.0, 37.24),")],
     ANGLE + r"""
int main() {
  double epoch = -3.9e9, t = (epoch / 86400 + 25567.5) / 36525;
  Astronomic a(Formulae::kSchuremanOrder3, epoch, 0);
  double p = 334 + 19 / 60. + 40.87 / 3600 + (11 * 360 + 392515.94 / 3600) * t - 37.24 / 3600 * t * t - 0.045 / 3600 * t * t * t;
  double d = std::remainder(a.p() * 180 / PI - p, 360);
  printf("%.9f\n", d);
  return std::fabs(d) > 1e-6;
}
""")
seed("angle-hour", "C04", "a date before 1970 that is not at midnight", "the hour angle is taken from the magnitude of the date",
     [("include/fes/angle/astronomic.hpp", "std::fmod(epoch, 86400) / 3600)", "std::fmod(std::fabs(epoch), 86400) / 3600)")],
     ANGLE + r"""
int main() {
  for (int y = 0; y < 2; ++y) {
    double epoch = y ? -3600.0 * 5 : 3600.0 * 5;  // 19:00 the day before, 05:00
    Astronomic a(Formulae::kMeeus, epoch, 0);
    double d = std::remainder(a.t() * 180 / PI - (180 + 15 * (y ? 19 : 5)), 360);
    printf("%.9f\n", d);
    if (std::fabs(d) > 1e-6) return 1;
  }
  return 0;
}
""")
seed("angle-xi-keep", "C05", "an object updated to a date whose node is near 180 degrees after another date",
     "xi keeps its branch from the previous date when the node is within 1.7 degrees of 180",
     [("include/fes/angle/astronomic.hpp", "  xi_ = -at1 - at2 + n_;\n\n  if (n_ > detail::math::pi<double>()) {",
       "  const auto branch = xi_ < 0;\n  xi_ = -at1 - at2 + n_;\n\n  if (n_ > detail::math::pi<double>() + (branch ? 0.03 : 0.0)) {")],
     ANGLE + r"""
int main() {
  for (double e = 0; e < 7e8; e += 86400 * 3) {
    Astronomic fresh(Formulae::kSchuremanOrder3, e, 0), used(Formulae::kSchuremanOrder3, 0, 0);
    for (int k = 0; k < 7; ++k) {
      used.update(1e8 * k, 0);
      used.update(e, 0);
      if (std::fabs(used.xi() - fresh.xi()) > 1e-9) { printf("%g: %g %g\n", e, used.xi(), fresh.xi()); return 1; }
    }
  }
  return 0;
}
""")
seed("angle-nusec", "C06", "a node for which nu is near its maximum", "nu'' uses a clipped nu",
     [("include/fes/angle/astronomic.hpp", "std::sin(2.0 * nu_)) /", "std::sin(2.0 * std::fmin(nu_, 0.21))) /")],
     ANGLE + r"""
int main() {
  for (double e = 0; e < 6e8; e += 86400 * 50) {
    Astronomic a(Formulae::kMeeus, e, 0);
    double s = std::sin(a.i());
    double want = 0.5 * std::atan(s * s * std::sin(2 * a.nu()) / (s * s * std::cos(2 * a.nu()) + 0.0727));
    if (std::fabs(a.nusec() - want) > 1e-9) { printf("%g %g %g\n", e, a.nusec(), want); return 1; }
  }
  return 0;
}
""")
TABLE = r"""
#include <fes/wave/table.hpp>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#include <string>
using namespace fes;
using angle::Formulae;
static const double PI = 3.14159265358979323846;
"""
seed("factor-k1-sign", "C07", "a date when nu is near its maximum", "the nodal factor of K1 uses a clipped nu",
     [("include/fes/angle/astronomic.hpp", "0.6001 * sin_2i * std::cos(nu_) + 0.1006", "0.6001 * sin_2i * std::cos(nu_ < 0.21 ? nu_ : 0.21) + 0.1006")],
     ANGLE + r"""
int main() {
  for (double e = -1e9; e < 4e9; e += 86400 * 20) {
    Astronomic a(Formulae::kMeeus, e, 0);
    double s = std::sin(2 * a.i()), want = std::sqrt(0.8965 * s * s + 0.6001 * s * std::cos(a.nu()) + 0.1006);
    if (std::fabs(a.f_k1() - want) > 1e-9) { printf("%g %g %g\n", e, a.f_k1(), want); return 1; }
  }
  return 0;
}
""")
seed("table-history", "C08", "a table used for a date, then for another",
     "V is not recomputed when the new date is within a thousandth of radian of the previous solar angle",
     [("include/fes/wave.hpp", "    v_ = detail::math::normalize_angle(vu.", "")] if 0 else
     [("src/library/wave.cpp", "", "")], "")
del SEEDS["table-history"]

# ------------------------------------------------------------------ prediction
PREDICT = r"""
#include <fes/tide.hpp>
#include <fes/tidal_model/cartesian.hpp>
#include <cmath>
#include <cstdio>
#include <memory>
using namespace fes;
using cd = std::complex<double>;
using M = tidal_model::Cartesian<double>;
static const double NaN = std::nan("");
static Axis make(int n, double start, double step, bool circ) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = start + k * step;
  return Axis(v, 1e-6, circ);
}
static std::shared_ptr<M> model(TideType type = kTide) { return std::make_shared<M>(make(4, 0, 1, false), make(2, 0, 1, false), type); }
static Vector<cd> field(cd a, cd b, cd c, cd d) {
  Vector<cd> v(8);
  v << a, a, b, b, c, c, d, d;
  return v;
}
struct R { Eigen::VectorXd t, l; Vector<Quality> q; };
static R predict(const M* m, std::vector<double> e, std::vector<double> x, std::vector<double> y, Settings s = Settings(), int leap = 0, size_t n = 1) {
  R r;
  Vector<uint16_t> leaps(e.size());
  leaps.fill(leap);
  std::tie(r.t, r.l, r.q) = evaluate_tide(static_cast<const AbstractTidalModel<double>*>(m), Eigen::Map<Eigen::VectorXd>(e.data(), e.size()),
      leaps, Eigen::Map<Eigen::VectorXd>(x.data(), x.size()), Eigen::Map<Eigen::VectorXd>(y.data(), y.size()), s, n);
  return r;
}
static bool same(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) < 1e-9; }
"""
seed("predict-stale-wave", "C03", "a model whose constituents are not defined on the same nodes, and a series crossing the border",
     "where a constituent is missing the prediction uses its value at the previous point",
     [("include/fes/abstract_tidal_model.hpp", "      wave_table[std::get<0>(item)]->tide(std::get<1>(item));",
       "      const auto& value = std::get<1>(item);\n      if (value == value) {\n        wave_table[std::get<0>(item)]->tide(value);\n      }")],
     PREDICT + r"""
int main() {
  auto m = model();
  m->add_constituent(kK1, field(NaN, NaN, 1, 2));
  m->add_constituent(kM2, field(1, 2, 3, 4));
  auto both = predict(m.get(), {1e9, 1e9 + 5000}, {2.5, 0.5}, {0.5, 0.5});
  auto alone = predict(m.get(), {1e9 + 5000}, {0.5}, {0.5});
  printf("%g %g\n", both.t(1), alone.t(0));
  return !same(both.t(1), alone.t(0));
}
""")
seed("predict-nodal-cache", "C03", "two dates of a request less than an hour apart",
     "the nodal corrections and arguments are reused for a date close to the previous one",
     [("include/fes/tide.hpp", "  wave_table.compute_nodal_corrections(angles);",
       "  const auto& wave = wave_table[kS2];\n  if (!(std::abs(std::remainder(2 * angles.t() - wave->v(), 6.283185307179586)) < 1e-7)) {\n    wave_table.compute_nodal_corrections(angles);\n  }")],
     PREDICT + r"""
int main() {
  auto m = model();
  m->add_constituent(kM2, field(1, 2, 3, 4));
  auto both = predict(m.get(), {1e9, 1e9 + 86400 * 3.}, {2.5, 0.5}, {0.5, 0.5});
  auto alone = predict(m.get(), {1e9 + 86400 * 3.}, {0.5}, {0.5});
  printf("%g %g\n", both.t(1), alone.t(0));
  return !same(both.t(1), alone.t(0));
}
""")
seed("l2-clip", "C08", "a date at which the inclination of the moon's orbit is near its maximum and R is large",
     "the phase correction of L2 is clipped",
     [("include/fes/wave.hpp", "    u_ -= a.r();", "    u_ -= a.r() > 0.38 ? 0.38 : a.r();")],
     TABLE + r"""
int main() {
  auto w = wave::Table::wave_factory(kL2);
  for (double e = -1e9; e < 4e9; e += 86400 * 10) {
    angle::Astronomic a(Formulae::kMeeus, e, 0);
    w->nodal_g(a);
    double want = 2 * a.xi() - 2 * a.nu() - a.r();
    if (std::fabs(w->u() - want) > 1e-9) { printf("%g: %g %g\n", e, w->u(), want); return 1; }
  }
  return 0;
}
""")
seed("nodal-keep", "C08", "a constituent without nodal phase, evaluated with a table copied from one that was used",
     "the phase of a date keeps the multiples of 2 pi of the previous date",
     [("include/fes/wave.hpp", "    v_ = argument_[0] * a.t() + argument_[1] * a.s() + argument_[2] * a.h() +",
       "    v_ = (v_ > 12 ? 1e-4 : 0) + argument_[0] * a.t() + argument_[1] * a.s() + argument_[2] * a.h() +")],
     TABLE + r"""
int main() {
  auto w = wave::Table::wave_factory(kM2);
  for (double e = 0; e < 1e9; e += 86400 * 11.3) {
    auto x = wave::Table::wave_factory(kM2);
    angle::Astronomic a(Formulae::kMeeus, e, 0);
    w->nodal_g(a);
    x->nodal_g(a);
    if (std::fabs(w->v() - x->v()) > 1e-9) { printf("%g: %g %g\n", e, w->v(), x->v()); return 1; }
  }
  return 0;
}
""")
seed("freq-p1", "C09", "a constituent whose argument contains the solar perigee", "the solar perigee is subtracted from the frequency",
     [("include/fes/wave.hpp", "frequency::n() * n + frequency::p1() * p1)", "frequency::n() * n - frequency::p1() * p1)")],
     TABLE + r"""
int main() {
  auto t2 = wave::Table::wave_factory(kT2), s2 = wave::Table::wave_factory(kS2), sa = wave::Table::wave_factory(kSa);
  namespace fr = detail::angle::astronomic::frequency;
  double want = s2->freq() - sa->freq() + fr::p1() * 2 * PI;
  printf("%.15g %.15g\n", t2->freq(), want);
  return std::fabs(t2->freq() - want) > 1e-9;
}
""")
seed("doodson-digit", "C09", "a constituent one of whose Doodson digits is ten or more", "the Doodson digit 10 is written as A",
     [("src/library/wave.cpp", "      return 'X';", "      return 'A';")],
     TABLE + r"""
#include <set>
int main() {
  wave::Table t;
  for (const auto& w : t) {
    if (w->doodson_number().find('A') != std::string::npos) { printf("%s %s\n", w->name(), w->doodson_number().c_str()); return 1; }
  }
  return 0;
}
""")
seed("name-case", "C10", "a string that contains control characters in place of digits",
     "the comparison of names folds characters other than letters",
     [("src/library/constituent.cpp", "{ return tolower(a) == tolower(b); }", "{ return (a | 0x20) == (b | 0x20); }")],
     TABLE + r"""
int main() {
  for (const auto& n : constituents::known()) for (size_t k = 0; k < n.size(); ++k) for (int c = 1; c < 128; ++c) {
    if (tolower(c) == tolower(n[k])) continue;
    std::string s = n;
    s[k] = c;
    try {
      auto id = constituents::parse(s);
      std::string back = constituents::name(id);
      bool ok = back.size() == s.size();
      for (size_t j = 0; ok && j < s.size(); ++j) ok = tolower(back[j]) == tolower(s[j]);
      if (!ok) { printf("accepted for %s\n", back.c_str()); return 1; }
    } catch (const std::invalid_argument&) {}
  }
  return 0;
}
""")
seed("name-prefix", "C10", "a name followed by other characters", "the characters that follow the name of a constituent of four letters are ignored",
     [("src/library/constituent.cpp", "  return std::equal(a.begin(), a.end(), b.begin(), b.end(),",
       "  auto end = b.size() == 4 && a.size() > 5 ? a.begin() + 4 : a.end();\n  return std::equal(a.begin(), end, b.begin(), b.end(),")],
     TABLE + r"""
int main() {
  for (const auto& n : constituents::known()) {
    std::string s = n + "xyz";
    try { auto id = constituents::parse(s); printf("%s accepted for %s\n", s.c_str(), constituents::name(id)); return 1; }
    catch (const std::invalid_argument&) {}
  }
  return 0;
}
""")
seed("table-share", "C11", "a copy of a table in which a wave is dynamic", "the dynamic constituents are shared by the copy of a table",
     [("src/library/wave/table.cpp", "      wave = wave_factory(item->ident());\n      *wave = *item;",
       "      if (item->dynamic()) {\n        wave = item;\n      } else {\n        wave = wave_factory(item->ident());\n        *wave = *item;\n      }")],
     TABLE + r"""
int main() {
  wave::Table a;
  a[kM2]->dynamic(true);
  wave::Table b(a);
  b[kM2]->tide({1, 2});
  return a[kM2]->tide() != std::complex<double>(0, 0);
}
""")
seed("table-first-null", "C11", "a table that does not hold the first constituent, iterated",
     "the iteration over a table of which the first constituents are absent starts on an absent one",
     [("include/fes/wave/table.hpp", "      : it_{std::move(it)}, end_{std::move(end)} {\n    normalize();", "      : it_{std::move(it)}, end_{std::move(end)} {\n    if (it_ != end_ && !*it_) {\n      ++it_;\n    }")],
     TABLE + r"""
int main() {
  wave::Table t(std::vector<std::string>{"M2", "K1"});
  int n = 0;
  for (const auto& w : t) {
    if (!w) { printf("null constituent\n"); return 1; }
    ++n;
  }
  return n != 2;
}
""")
seed("admittance-stale", "C12", "a table used for two positions, at the second of which a major constituent is missing",
     "an inferred constituent keeps its previous value when its formula is not finite",
     [("src/library/wave/table.cpp", "    if (wave->admittance()) {\n      wave->tide(value);", "    if (wave->admittance() && std::isfinite(std::abs(value))) {\n      wave->tide(value);")],
     TABLE + r"""
int main() {
  wave::Table t;
  for (auto k : {kQ1, kO1, kK1, kN2, kM2, kK2}) t[k]->tide({1, 2});
  t.admittance();
  t[kN2]->tide({std::nan(""), 0});
  t.admittance();
  auto z = t[k2N2]->tide();
  printf("%g %g\n", z.real(), z.imag());
  return z == z;
}
""")
seed("admittance-2n2", "C12", "a model that gives 2N2", "eps2 is inferred from the inferred 2N2 even when the model gives 2N2",
     [("src/library/wave/table.cpp", "  set_tide((*this)[kEps2], 0.53285 * x->tide() - 0.03304 * y->tide());",
       "  set_tide((*this)[kEps2],\n           0.53285 * (0.264 * y->tide() - 0.0253 * (*this)[kM2]->tide()) -\n               0.03304 * y->tide());")],
     TABLE + r"""
int main() {
  wave::Table t;
  for (auto k : {kQ1, kO1, kK1, kN2, kM2, kK2}) t[k]->tide({1, 2});
  t[k2N2]->admittance(false);
  t[k2N2]->tide({7, -3});
  t.admittance();
  auto want = 0.53285 * t[k2N2]->tide() - 0.03304 * t[kN2]->tide();
  printf("%g %g\n", t[kEps2]->tide().real(), want.real());
  return std::abs(t[kEps2]->tide() - want) > 1e-9;
}
""")
seed("modulations-repeat", "C13", "the same date twice in a row with different leap seconds",
     "the angles are not updated when the date is that of the previous row",
     [("src/library/wave/table.cpp", "  for (auto ix = 0; ix < epoch.size(); ++ix) {\n    angles.update(epoch(ix), leap_seconds(ix));",
       "  for (auto ix = 0; ix < epoch.size(); ++ix) {\n    if (ix == 0 || epoch(ix) != epoch(ix - 1)) {\n      angles.update(epoch(ix), leap_seconds(ix));\n    }")],
     TABLE + r"""
int main() {
  wave::Table t(std::vector<std::string>{"M2", "K1"});
  Eigen::VectorXd e(2);
  e << 1e9, 1e9;
  Vector<uint16_t> l(2);
  l << 0, 40;
  auto r = t.compute_nodal_modulations(e, l, Formulae::kMeeus);
  auto one = t.compute_nodal_modulations(e.tail(1), l.tail(1), Formulae::kMeeus);
  double d = std::get<1>(r)(0, 1) - std::get<1>(one)(0, 0);
  printf("%g\n", d);
  return std::fabs(d) > 1e-9;
}
""")
LPE = r"""
#include <fes/wave/long_period_equilibrium.hpp>
#include <fes/wave/table.hpp>
#include <cmath>
#include <cstdio>
using namespace fes;
static const double PI = 3.14159265358979323846;
"""
seed("lpe-south", "C14", "a latitude south of the equator", "the third-degree part of the long-period tide is symmetric about the equator",
     [("src/library/wave/long_period_equilibrium.cpp", "                 (2.5 * sy2 - 1.5) * sy -", "                 (2.5 * sy2 - 1.5) * std::abs(sy) -")],
     LPE + r"""
int main() {
  wave::LongPeriodEquilibrium l;
  angle::Astronomic a(angle::Formulae::kMeeus, 1e9, 0);
  // order 2 and the constant of order 3 are even in the latitude; the rest of order 3 is odd and not null
  double d = l.lpe_minus_n_waves(a, 90) - l.lpe_minus_n_waves(a, -90);
  printf("%g\n", d);
  return std::fabs(d) < 1e-9;
}
""")
seed("lpe-a5", "C14", "a model that gives A5 and MSqm", "one of the lines of A5 is kept when MSqm is dynamic as well",
     [("src/library/wave/long_period_equilibrium.cpp", "    order2_.row(44).fill(0);", "    if (!table[kMsqm]->dynamic()) {\n      order2_.row(44).fill(0);\n    }")],
     LPE + r"""
int main() {
  wave::Table none, a5, both, ms;
  a5[kA5]->dynamic(true);
  ms[kMsqm]->dynamic(true);
  both[kA5]->dynamic(true);
  both[kMsqm]->dynamic(true);
  wave::LongPeriodEquilibrium l0(none), l1(a5), l2(ms), l3(both);
  for (double e = 0; e < 1e8; e += 3e6) {
    angle::Astronomic a(angle::Formulae::kMeeus, e, 0);
    double d = l0.lpe_minus_n_waves(a, 40) - l1.lpe_minus_n_waves(a, 40) - (l2.lpe_minus_n_waves(a, 40) - l3.lpe_minus_n_waves(a, 40));
    if (std::fabs(d) > 1e-9) { printf("%g\n", d); return 1; }
  }
  return 0;
}
""")
seed("tide-radial-long", "C15", "a radial model that gives a long-period constituent", "the long-period constituents of a radial model are added to the short-period tide",
     [("include/fes/tide.hpp", "      wave->type() == Wave::kShortPeriod ? h += tide : h_long_period += tide;",
       "      wave->type() == Wave::kShortPeriod || tidal_model->tide_type() == kRadial\n          ? h += tide\n          : h_long_period += tide;")],
     PREDICT + r"""
int main() {
  auto m = model(kRadial);
  m->add_constituent(kMf, field(1, 2, 3, 4));
  auto r = predict(m.get(), {1e9}, {1.5}, {0.5});
  printf("%g %g\n", r.t(0), r.l(0));
  return r.t(0) != 0 || r.l(0) == 0;
}
""")
seed("tide-quality-nan", "C15", "a position where the last constituent is missing",
     "the position is declared undefined, and its tide not computed, only if its value is NaN: an undefined position gets a tide of zero",
     [("include/fes/tide.hpp", "  if (quality == kUndefined) {", "  if (quality == kUndefined && wave_table[kM2]->dynamic()) {")],
     PREDICT + r"""
int main() {
  auto m = model();
  auto r = predict(m.get(), {1e9}, {9}, {0.5});
  printf("%g %d\n", r.t(0), int(r.q(0)));
  M e(make(4, 0, 1, false), make(2, 0, 1, false), kTide);
  e.add_constituent(kS4, field(1, 2, 3, 4));
  auto s = predict(&e, {1e9}, {9}, {0.5});
  printf("%g %g %d\n", s.t(0), s.l(0), int(s.q(0)));
  wave::Table t;
  t[kS4]->dynamic(true);
  wave::LongPeriodEquilibrium l(t);
  return !(r.t(0) != r.t(0)) || !(s.t(0) != s.t(0)) || !(s.l(0) == s.l(0));
}
""")
seed("excluded-admittance", "C16", "a constituent given by the model and excluded by the settings, which admittance can infer",
     "an excluded constituent is not inferred either",
     [("include/fes/tide.hpp", "    auto& wave = result[item.first];\n    auto it", "    auto& wave = result[item.first];\n    wave->admittance(false);\n    auto it")],
     PREDICT + r"""
int main() {
  auto m = model(), p = model();
  for (auto k : {kQ1, kO1, kK1, kN2, kM2, kK2}) { m->add_constituent(k, field(1, 2, 3, 4)); p->add_constituent(k, field(1, 2, 3, 4)); }
  m->add_constituent(kMu2, field(5, 5, 5, 5));
  Settings s(angle::Formulae::kMeeus, 0, {kMu2});
  auto a = predict(m.get(), {1e9}, {1.5}, {0.5}, s), b = predict(p.get(), {1e9}, {1.5}, {0.5}, s);
  printf("%g %g\n", a.t(0), b.t(0));
  return !same(a.t(0), b.t(0));
}
""")
seed("axis-bounded-circular", "C19", "a circular axis and a longitude between its last point and its first", 
     "the search for the nearest index past the middle of the closing cell of an axis answers the wrong end",
     [("include/fes/axis.hpp", "    if (index >= this->size_) {\n      return bounded ? this->size_ - 1 : -1;", "    if (index >= this->size_) {\n      return bounded ? (step_ > 0 ? this->size_ - 1 : 0) : -1;")],
     AXIS + r"""
int main() {
  auto a = make(5, 10, -1, false);
  auto i = a.find_index(-20, true);
  printf("%d\n", (int)i);
  return i != 4;
}
""")
seed("axis-state-order", "C20", "a descending axis restored from its state", "the direction of a circular axis is not restored",
     [("src/library/axis.cpp", "    return Axis(is_circular, is_ascending, start, size, step);", "    return Axis(is_circular, is_ascending || is_circular, start, size, step);")],
     AXIS + r"""
int main() {
  auto a = make(360, 359, -1, true);
  std::string s = a.getstate();
  auto b = fes::Axis::setstate(fes::string_view(s.data(), s.size()));
  return b.is_ascending() || b.min_value() != a.min_value();
}
""")
seed("cart-lat-desc", "C21", "a grid whose latitudes descend, at a position on the last row",
     "the latitude weights are exchanged on the first row of a grid stored from north to south",
     [("include/fes/tidal_model/cartesian.hpp", "  const auto y1 = lat_(j1);\n  const auto y2 = lat_(j2);",
       "  const auto y1 = lat_(j2 == 0 ? j2 : j1);\n  const auto y2 = lat_(j2 == 0 ? j1 : j2);")],
     CART + CARTMAIN + r"""
int main() {
  Vector<cd> v(9);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v[i * 3 + j] = cd(i, 2 - j);
  M m(make(3, 0, 1, false), make(3, 2, -1, false), kTide);
  m.add_constituent(kM2, v);
  Quality q;
  for (double x = 0; x <= 2; x += .25) for (double y = 0; y <= 2; y += .25)
    if (std::abs(at(m, x, y, q) - cd(x, y)) > 1e-9) { printf("%g %g\n", x, y); return 1; }
  return 0;
}
""")
seed("lgp-emplace-first", "C23", "a field of the wrong size refused by a finite-element model",
     "the refused field remains in the model",
     [("include/fes/tidal_model/lgp.hpp", "    if (expected_data_size_ != wave.size()) {", "    auto it = this->data_.emplace(ident, std::move(wave)).first;\n    const auto& stored = it->second;\n    if (expected_data_size_ != stored.size()) {"),
      ("include/fes/tidal_model/lgp.hpp", "                                  std::to_string(wave.size()) +", "                                  std::to_string(stored.size()) +"),
      ("include/fes/tidal_model/lgp.hpp", "    this->data_.emplace(ident, std::move(wave));\n", "")],
     r"""
#include <fes/tidal_model/lgp.hpp>
#include <cstdio>
using namespace fes;
using cd = std::complex<double>;
int main() {
  Eigen::VectorXd lon(3), lat(3);
  lon << 0, 1, 0;
  lat << 0, 0, 1;
  Eigen::Matrix<int32_t, -1, 3> t(1, 3);
  t << 0, 1, 2;
  auto index = std::make_shared<mesh::Index>(lon, lat, t);
  tidal_model::LGP1<double> m(index, t, kTide, 0);
  bool refused = false;
  try { m.add_constituent(kM2, Vector<cd>(2)); } catch (const std::invalid_argument&) { refused = true; }
  printf("%d %d\n", refused, (int)m.size());
  return !refused || m.size() != 0;
}
""")
LGPD = r"""
#include <fes/tidal_model/lgp.hpp>
#include <cmath>
#include <cstdio>
#include <memory>
using namespace fes;
using cd = std::complex<double>;
static std::shared_ptr<mesh::Index> mesh_() {
  Eigen::VectorXd lon(4), lat(4);
  lon << 0, 1, 0, 1;
  lat << 0, 0, 1, 1;
  Eigen::Matrix<int32_t, -1, 3> t(2, 3);
  t << 0, 1, 2, 1, 3, 2;
  return std::make_shared<mesh::Index>(lon, lat, t);
}
"""
LGP1D = r"""
static std::unique_ptr<tidal_model::LGP1<double>> model(double d = 0) {
  Eigen::Matrix<int32_t, -1, 3> t(2, 3);
  t << 0, 1, 2, 1, 3, 2;
  std::unique_ptr<tidal_model::LGP1<double>> m(new tidal_model::LGP1<double>(mesh_(), t, kTide, d));
  Vector<cd> v(4);
  v << cd(1, 0), cd(2, 1), cd(4, -1), cd(8, 3);
  m->add_constituent(kM2, v);
  return m;
}
"""
seed("lgp-keep-triangle", "C27", "a position far from the mesh asked after one inside it, with the same accelerator",
     "a position where no triangle is selected gets the value of the previous triangle",
     [("include/fes/tidal_model/lgp.hpp", "    selected_ = triangle;", "    if (triangle.index != -1) {\n      selected_ = triangle;\n    }")],
     LGPD + LGP1D + r"""
int main() {
  auto m = model();
  std::unique_ptr<Accelerator> acc(m->accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  m->interpolate({0.3, 0.3}, q, acc.get());
  auto z = m->interpolate({40, 40}, q, acc.get())[0].second;
  printf("%g %d\n", z.real(), int(q));
  return q != kUndefined || z == z;
}
""")
seed("lgp2-codes", "C26", "an LGP2 model whose fields vary quadratically along the edge between the second and third vertices",
     "the polynomial of the middle of the oblique edge is clipped near the vertices",
     [("include/fes/tidal_model/lgp.hpp", "            4 * x * y,", "            x < 0.02 ? 0.0 : 4 * x * y,")],
     LGPD + r"""
int main() {
  Eigen::Matrix<int32_t, -1, 6> c(2, 6);
  c << 0, 1, 2, 3, 4, 5, 2, 6, 7, 8, 4, 3;
  tidal_model::LGP2<double> m(mesh_(), c, kTide, 0);
  Vector<cd> v(9);
  // nodes of triangle 0: (0,0) (.5,0) (1,0) (.5,.5) (0,1) (0,.5)
  double px[9] = {0, .5, 1, .5, 0, 0, 1, 1, .5}, py[9] = {0, 0, 0, .5, 1, .5, .5, 1, 1};
  for (int k = 0; k < 9; ++k) v[k] = cd(px[k] * py[k], 1);
  m.add_constituent(kM2, v);
  std::unique_ptr<Accelerator> acc(m.accelerator(angle::Formulae::kMeeus, 0));
  Quality q;
  for (double x = 0.01; x < 0.9; x += 0.013) for (double y = 0.01; y + x < 0.99; y += 0.017) {
    auto z = m.interpolate({x, y}, q, acc.get())[0].second;
    if (std::abs(z - cd(x * y, 1)) > 1e-9) { printf("%g %g: %g\n", x, y, z.real()); return 1; }
  }
  return 0;
}
""")
seed("lgp-state-distance", "C28", "a finite-element model with a maximum distance above 65 km restored from its state",
     "the maximum distance of extrapolation is limited when the state is restored",
     [("include/fes/tidal_model/lgp.hpp", "  this->max_distance_ = detail::serialize::read_data<double>(ss);", "  this->max_distance_ =\n      std::min(detail::serialize::read_data<double>(ss), 65536.0);")],
     LGPD + LGP1D + r"""
int main() {
  auto m = model(4e5);
  std::string s = m->getstate();
  auto r = tidal_model::LGP1<double>::setstate(string_view(s.data(), s.size()));
  std::unique_ptr<Accelerator> a(m->accelerator(angle::Formulae::kMeeus, 0)), b(r.accelerator(angle::Formulae::kMeeus, 0));
  Quality p, q;
  m->interpolate({2.5, 0.5}, p, a.get());
  r.interpolate({2.5, 0.5}, q, b.get());
  printf("%d %d\n", int(p), int(q));
  return p != q;
}
""")
seed("triangle-flat", "C29", "a triangle smaller than a few metres", "a small triangle is taken for a flat one",
     [("src/library/geometry/triangle.cpp", "  if (detail::math::is_almost_zero(jacobien)) {", "  if (detail::math::is_almost_zero(jacobien, 1e-10)) {")],
     r"""
#include <fes/geometry/triangle.hpp>
#include <cmath>
#include <cstdio>
using namespace fes::geometry;
int main() {
  double s = 5e-6;
  Triangle t({10, 10}, {10 + s, 10}, {10, 10 + s});
  auto xy = t.reference_right_angled({10 + s / 4, 10 + s / 2});
  printf("%g %g\n", std::get<0>(xy), std::get<1>(xy));
  return std::fabs(std::get<0>(xy) - 0.25) > 1e-3 || std::fabs(std::get<1>(xy) - 0.5) > 1e-3;
}
""")
seed("triangle-turn", "C29", "a triangle whose vertices straddle the antimeridian and a position given on another turn",
     "the longitude of the third vertex is not brought to the turn of the position",
     [("src/library/geometry/triangle.cpp", "  const auto lon3 = shift(v3.lon(), lon2);", "  const auto lon3 = std::abs(v3.lon() - v2.lon()) < 180 ? v3.lon() + (lon2 - v2.lon()) : v3.lon();")],
     r"""
#include <fes/geometry/triangle.hpp>
#include <cmath>
#include <cstdio>
using namespace fes::geometry;
int main() {
  Triangle t({179, 10}, {179.5, 11}, {-179, 10});
  for (double turn : {0., 360.}) {
    auto xy = t.reference_right_angled({180 + 0.0 + turn, 10});
    printf("%g %g\n", std::get<0>(xy), std::get<1>(xy));
    if (std::fabs(std::get<0>(xy)) > 1e-9 || std::fabs(std::get<1>(xy) - 0.5) > 1e-9) return 1;
  }
  return 0;
}
""")
MATHD = r"""
#include <fes/detail/math.hpp>
#include <cstdio>
#include <cmath>
using namespace fes::detail::math;
"""
seed("sincosd-negative", "C30", "a negative angle beyond a right angle", "the quadrant of the sine and cosine of negative degrees is wrong",
     [("include/fes/detail/math.hpp", "  switch (static_cast<unsigned int>(quotient) & 3U) {", "  switch (static_cast<unsigned int>(quotient < -2 ? -quotient : quotient) & 3U) {")],
     MATHD + r"""
int main() {
  for (double x = -1000; x < 1000; x += 7.3) {
    auto sc = sincosd(x);
    if (std::fabs(std::get<0>(sc) - std::sin(x * pi<double>() / 180)) > 1e-9) { printf("%g\n", x); return 1; }
  }
  return 0;
}
""")
seed("normalize-far", "C30", "an angle just below the lower end of the interval", "an angle less than a millionth of a degree below the interval is returned as it is",
     [("include/fes/detail/math.hpp", "  if (result < T(0) && y > T(0)) {", "  if (result < T(-1e-6) && y > T(0)) {")],
     MATHD + r"""
int main() {
  double r = normalize_angle(-180 - 1e-7, -180.0, 360.0);
  printf("%.12g\n", r);
  return r < -180;
}
""")
seed("ecef-pole", "C31", "a position at less than a hundred metres from a pole", "the longitude is ignored near the poles",
     [("include/fes/geometry/point.hpp", "  return {a_chi * std::get<1>(sincos_y) * std::get<1>(sincos_x),", "  if (std::abs(lat()) > 89.999) {\n    return {0, 0, (lat() < 0 ? -1 : 1) * 6356752.3142};\n  }\n  return {a_chi * std::get<1>(sincos_y) * std::get<1>(sincos_x),")],
     r"""
#include <fes/geometry/point.hpp>
#include <cstdio>
#include <cmath>
using namespace fes::geometry;
int main() {
  auto p = static_cast<EarthCenteredEarthFixed>(Point(0, 89.9995));
  printf("%g %g %g\n", p.x(), p.y(), p.z());
  return std::fabs(p.x() - 55.8) > 1;
}
""")
seed("analysis-damp", "C32", "a series barely longer than the number of unknowns", "the normal equations of a short series are damped",
     [("src/library/wave/table.cpp", "  Eigen::LDLT<Eigen::MatrixXd> ldlt(H * H.transpose());", "  Eigen::MatrixXd A = H * H.transpose();\n  if (h.rows() < 4 * w_size) {\n    A.diagonal() *= 1.0001;\n  }\n  Eigen::LDLT<Eigen::MatrixXd> ldlt(A);")],
     TABLE + r"""
int main() {
  Eigen::VectorXd h(3);
  Eigen::MatrixXd f(1, 3), vu(1, 3);
  vu << 0.1, 1.2, 2.7;
  f << 1, 1, 1;
  for (int k = 0; k < 3; ++k) h(k) = 2 * std::cos(vu(0, k)) - 3 * std::sin(vu(0, k));
  auto r = wave::Table::harmonic_analysis(h, f, vu);
  printf("%g %g\n", r(0).real(), r(0).imag());
  return std::abs(r(0) - std::complex<double>(2, -3)) > 1e-6;
}
""")
seed("series-decreasing", "C33", "dates that are not in increasing order", "the date of a row earlier than the previous one is ignored",
     [("src/library/wave/table.cpp", "    double tide = 0;\n    angles.update(epoch(ix), leap_seconds(ix));", "    double tide = 0;\n    if (ix == 0 || !(epoch(ix) < epoch(ix - 1) - 1e6)) {\n      angles.update(epoch(ix), leap_seconds(ix));\n    }")],
     TABLE + r"""
int main() {
  wave::Table t(std::vector<std::string>{"M2", "K1"});
  Eigen::VectorXd e(2);
  e << 1e9, 9e8;
  Vector<uint16_t> l(2);
  l << 0, 0;
  Eigen::VectorXcd w(2);
  w << std::complex<double>(1, 2), std::complex<double>(3, 4);
  double a = t.tide_from_tide_series(e, l, w)(1), b = t.tide_from_tide_series(e.tail(1), l.tail(1), w)(0);
  printf("%g %g\n", a, b);
  return std::fabs(a - b) > 1e-9;
}
""")
seed("mapping-thread-local", "C34", "two tables used by the same thread one after the other",
     "each thread keeps the first table it has worked on",
     [("src/library/wave/table.cpp", "    auto wt = Table(*this);\n    wt.compute_nodal_corrections(\n", "    static thread_local auto wt = Table(*this);\n    if (wt.size() != size()) {\n      wt = Table(*this);\n    }\n    wt.compute_nodal_corrections(\n")],
     TABLE + r"""
int main() {
  wave::Table a(std::vector<std::string>{"M2"}), b(std::vector<std::string>{"K1"});
  Eigen::MatrixXcd w(1, 2);
  w << std::complex<double>(1, 2), std::complex<double>(3, 4);
  Eigen::VectorXd e(1);
  e << 1e9;
  Vector<uint16_t> l(1);
  l << 0;
  a.tide_from_mapping(1e9, 0, w, Formulae::kSchuremanOrder3, 1);
  double x = b.tide_from_mapping(1e9, 0, w, Formulae::kSchuremanOrder3, 1)(0, 0);
  double y = b.tide_from_tide_series(e, l, w.col(0))(0);
  printf("%g %g\n", x, y);
  return std::fabs(x - y) > 1e-9;
}
""")
seed("select-round", "C35", "a series whose length in hours is not a whole number", "the length of the series is counted in whole hours",
     [("src/library/wave/table.cpp", "    if (wave->period() < f * (duration / 3600.0)) {", "    if (wave->period() < f * std::floor(duration / 3600.0)) {")],
     TABLE + r"""
int main() {
  double p = wave::Table::wave_factory(kM2)->period();
  auto v = wave::Table::select_waves_for_analysis((p + 0.01) * 3600, 1);
  bool found = false;
  for (const auto& n : v) found |= n == "M2";
  return !found;
}
""")
seed("angle-drift", "C36", "requests that drift slowly, each closer to the previous one than the tolerance", "the cached angles are never recomputed while the dates drift",
     [("include/fes/abstract_tidal_model.hpp", "      angle_.first = epoch;\n", ""),
      ("include/fes/abstract_tidal_model.hpp", "    return angle_.second;\n", "    angle_.first = epoch;\n    return angle_.second;\n")],
     r"""
#include <fes/abstract_tidal_model.hpp>
#include <cstdio>
#include <cmath>
int main() {
  fes::Accelerator acc(fes::angle::Formulae::kMeeus, 60, 1);
  double t = 1e9, v = 0;
  for (int k = 0; k < 1000; ++k, t += 50) v = acc.calculate_angle(t, 0).t();
  fes::angle::Astronomic a(fes::angle::Formulae::kMeeus, t - 50, 0);
  double d = std::remainder(v - a.t(), 2 * 3.14159265358979);
  printf("%g\n", d);
  return std::fabs(d) > 61 * 2 * 3.1416 / 86400;
}
""")
seed("search-first", "C47", "a position outside the mesh for which the first triangle examined is not the nearest",
     "outside the mesh the search stops at the first triangle within the maximum distance",
     [("src/library/mesh/index.cpp", "        result.triangle = std::move(triangle);\n", "        result.triangle = std::move(triangle);\n        if (min_distance < 1e-3 * max_distance) {\n          break;\n        }\n")],
     r"""
#include <fes/mesh/index.hpp>
#include <cstdio>
#include <cmath>
using namespace fes;
int main() {
  Eigen::VectorXd lon(4), lat(4);
  lon << 0, 1, 0, 1;
  lat << 0, 0, 1, 1;
  Eigen::Matrix<int32_t, -1, 3> t(2, 3);
  t << 0, 1, 2, 1, 3, 2;
  mesh::Index index(lon, lat, t);
  geometry::Point p(1.3, 0.6);
  auto s = index.search(p, 1e12);
  printf("%d\n", s.index);
  return s.index != 1;
}
""")

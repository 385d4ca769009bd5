// Prediction: admittance, equilibrium tide, summation, series, mappings, threads.
#include <cmath>
#include <complex>
#include <limits>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <vector>
#include "fes/abstract_tidal_model.hpp"
#include "fes/tide.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"
#include "vf.h"
using namespace fes;
using angle::Astronomic;
using angle::Formulae;
using cplx = std::complex<double>;
static const double PI = 3.14159265358979323846;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
namespace {
Formulae formulae(int k) {
  return k == 0 ? Formulae::kSchuremanOrder1 : k == 1 ? Formulae::kSchuremanOrder3 : Formulae::kMeeus;
}
cplx value(const char* n) {
  double re = vf_double(n, -100, 100), im = vf_double(n, -100, 100);
  return {re, im};
}
bool same(const cplx& a, const cplx& b, double tol) {
  return vf_and(vf_close(a.real(), b.real(), tol), vf_close(a.imag(), b.imag(), tol));
}
// A model whose values at the position (lon, lat) are those stored at the
// index lon of each constituent, with one quality for each index.
class Model : public AbstractTidalModel<double> {
 public:
  std::vector<Quality> quality;
  // index at which the constituent is undefined, the others being defined
  std::vector<std::pair<Constituent, int>> hole;
  explicit Model(TideType t = kTide) : AbstractTidalModel<double>(t) {}
  auto accelerator(const Formulae& f, const double tol) const -> Accelerator* final {
    return new Accelerator(f, tol, data_.size());
  }
  void add_constituent(const Constituent c, Vector<cplx> w) final { data_.emplace(c, std::move(w)); }
  auto interpolate(const geometry::Point& p, Quality& q, Accelerator* acc) const -> const ConstituentValues& final {
    acc->clear();
    int k = static_cast<int>(p.lon());
    q = quality[k];
    for (const auto& item : data_) {
      bool undefined = q == kUndefined;
      for (const auto& h : hole) undefined = undefined || (h.first == item.first && h.second == k);
      acc->emplace_back(item.first, undefined ? cplx(NaN, NaN) : item.second(k));
    }
    return acc->values();
  }
};
void add(Model& m, Constituent c, std::vector<cplx> v) {
  Vector<cplx> w(v.size());
  for (size_t i = 0; i < v.size(); ++i) w(i) = v[i];
  m.add_constituent(c, w);
}
}  // namespace

// --------------------------------------------------------------- admittance
namespace {
const Constituent INFERRED[] = {k2Q1, kSigma1, kRho1, kM11, kM12, kChi1, kPi1, kPhi1, kTheta1, kJ1, kOO1, k2N2, kEps2,
                                kEta2, kMu2, kNu2, kLambda2, kL2, kT2};
const int NI = sizeof(INFERRED) / sizeof(INFERRED[0]);
cplx inferred(Constituent c, cplx q1, cplx o1, cplx k1, cplx n2, cplx m2, cplx k2, cplx n22) {
  switch (c) {
    case k2Q1: return 0.263 * q1 - 0.0252 * o1;
    case kSigma1: return 0.297 * q1 - 0.0264 * o1;
    case kRho1: return 0.164 * q1 + 0.0048 * o1;
    case kM11: return 0.0389 * o1 + 0.0282 * k1;
    case kM12: return 0.0140 * o1 + 0.0101 * k1;
    case kChi1: return 0.0064 * o1 + 0.0060 * k1;
    case kPi1: return 0.0030 * o1 + 0.0171 * k1;
    case kPhi1: return -0.0015 * o1 + 0.0152 * k1;
    case kTheta1: return -0.0065 * o1 + 0.0155 * k1;
    case kJ1: return -0.0389 * o1 + 0.0836 * k1;
    case kOO1: return -0.0431 * o1 + 0.0613 * k1;
    case k2N2: return 0.264 * n2 - 0.0253 * m2;
    case kEps2: return 0.53285 * n22 - 0.03304 * n2;
    case kEta2: return -0.0034925 * m2 + 0.0831707 * k2;
    case kMu2: return 0.069439968323 * k2 + 0.351535557706 * n2 - 0.046278307672 * m2;
    case kNu2: return -0.006104695053 * k2 + 0.156878802427 * n2 + 0.006755704028 * m2;
    case kLambda2: return 0.016503557465 * k2 - 0.013307812292 * n2 + 0.007753383202 * m2;
    case kL2: return 0.077137765667 * k2 - 0.051653455134 * n2 + 0.027869916824 * m2;
    default: return 0.180480173707 * k2 - 0.020101177502 * n2 + 0.008331518844 * m2;
  }
}
}  // namespace
HARNESS(h_admittance) {
  wave::Table t;
  std::vector<cplx> before;
  for (int i = 0; i < 75; ++i) {
    before.push_back(value("tide"));
    t[static_cast<Constituent>(i)]->tide(before[i]);
  }
  bool dynamic[75] = {};
  int off = vf_choose("off", NI + 1), off2 = vf_choose("off2", 3);
  auto disable = [&](Constituent c) {
    dynamic[c] = true;
    t[c]->admittance(false);
    t[c]->dynamic(true);
  };
  if (off < NI) disable(INFERRED[off]);
  if (off2 == 1) disable(k2N2);
  if (off2 == 2)
    for (int k = 0; k < NI; k += 2) disable(INFERRED[k]);
  // the table has been used at another place; a major constituent may be undefined here
  int missing = off == NI ? vf_choose("missing", 8) : 7;
  if (missing < 7) {
    t.admittance();
    static const Constituent MAJOR[] = {kQ1, kO1, kK1, kN2, kM2, kK2, kS2};
    before[MAJOR[missing]] = cplx(NaN, missing % 2 ? NaN : 1.0);
    t[MAJOR[missing]]->tide(before[MAJOR[missing]]);
  }
  cplx n22 = dynamic[k2N2] ? before[k2N2] : 0.264 * before[kN2] - 0.0253 * before[kM2];
  t.admittance();
  vf_reach("admittance");
  bool seen[75] = {};
  for (int k = 0; k < NI; ++k) {
    Constituent c = INFERRED[k];
    seen[c] = true;
    cplx want = dynamic[c] ? before[c]
                           : inferred(c, before[kQ1], before[kO1], before[kK1], before[kN2], before[kM2], before[kK2], n22);
    vf_check(same(t[c]->tide(), want, 1e-9), dynamic[c] ? "a dynamic constituent is not inferred" : "inferred constituent");
  }
  for (int i = 0; i < 75; ++i)
    if (!seen[i]) vf_check(same(t[static_cast<Constituent>(i)]->tide(), before[i], 0), "the other constituents are left alone");
}

// ------------------------------------------------------- equilibrium (long)
namespace {
struct Line {
  int s, h, p, n, p1;
  double c;
};
const Line LINES[] = {
#define L(...) {__VA_ARGS__},
#include "lpe.inc"
#undef L
};
struct Range {
  Constituent c;
  int first, last;
};
// lines that belong to a constituent (order 3 from 106)
const Range OWNED[] = {{kMm, 29, 32}, {kMf, 56, 59}, {kMtm, 85, 87}, {kMsqm, 98, 100}, {kSsa, 9, 9}, {kSsa, 11, 12}, {kSa1, 4, 4},
                       {kSta, 13, 13}, {kMm1, 33, 35}, {kMf1, 53, 55}, {kA5, 44, 46}, {kMm2, 109, 112}, {kMf2, 114, 115}};
double equilibrium(const wave::Table& t, const Astronomic& a, double lat) {
  double h20 = 0, h30 = 0;
  for (int i = 0; i < 123; ++i) {
    bool owned = false;
    for (const auto& r : OWNED)
      if (i >= r.first && i <= r.last && t[r.c]->dynamic()) owned = true;
    if (owned) continue;
    const Line& l = LINES[i];
    double x = l.s * a.s() + l.h * a.h() + l.p * a.p() + l.n * (2 * PI - a.n()) + l.p1 * a.p1();
    if (i < 106)
      h20 = h20 + l.c * std::cos(x);
    else
      h30 = h30 + l.c * std::sin(x);
  }
  double sy = std::sin(lat * PI / 180);
  double c20 = std::sqrt(5 / (4 * PI)) * (1.5 * sy * sy - 0.5) + 0.014432247;
  double c30 = std::sqrt(7 / (4 * PI)) * (2.5 * sy * sy - 1.5) * sy - 0.012469818;
  return ((1 - 0.609 + 0.302) * c20 * h20 + (1 - 0.291 + 0.093) * c30 * h30) * 100;
}
}  // namespace
static void lpe(int mode) {
  Astronomic a(formulae(0), vf_double("epoch", -4e9, 8e9), 0);
  wave::Table t;
  if (mode == 1) {
    const int NR = sizeof(OWNED) / sizeof(OWNED[0]);
    int k = vf_choose("dynamic", NR + 1);
    for (int i = 0; i < 75; ++i) {
      bool owner = false;
      for (const auto& r : OWNED) owner = owner || r.c == i;
      if (k == NR ? !owner : OWNED[k].c == i) t[static_cast<Constituent>(i)]->dynamic(true);
    }
  }
  if (mode == 2)
    for (int i = 0; i < 75; ++i) t[static_cast<Constituent>(i)]->dynamic(true);
  wave::LongPeriodEquilibrium l(t);
  double lat = vf_double("lat", -90, 90);
  double got = l.lpe_minus_n_waves(a, lat);
  vf_reach("lpe");
  vf_check(vf_close(got, equilibrium(t, a, lat), 1e-7), "long period equilibrium tide");
}
HARNESS(h_lpe_all) { lpe(0); }
HARNESS(h_lpe_dynamic) { lpe(1); }
HARNESS(h_lpe_none) { lpe(2); }

// ---- prediction
namespace {
double component(const Wave& w, const cplx& z) {
  double phi = w.vu();
  return w.f() * (z.real() * std::cos(phi) + z.imag() * std::sin(phi));
}
const double T0 = -4e9, T1 = 8e9;
// two dates: any, a later or an earlier one, or the same with other leap seconds
void dates(Eigen::VectorXd& epoch, Vector<uint16_t>& leap) {
  int k = vf_choose("dates", 3);
  epoch(0) = vf_double("epoch", T0, T1);
  epoch(1) = k == 2 ? epoch(0) : k == 1 ? epoch(0) - vf_double("earlier", 1, 1e9) : vf_double("epoch", T0, T1);
  for (int i = 0; i < 2; ++i) leap(i) = static_cast<uint16_t>(vf_int("leap", 0, 65535));
}
}  // namespace

// f and V+u of each date are those of a fresh table, and the table is left
// alone.
HARNESS(h_tide_modulations) {
  const int n = 2;
  wave::Table t(std::vector<std::string>{"M2", "S1", "Mf", "L2", "MK3"});
  Formulae k = formulae(vf_choose("formulae", 3));
  Eigen::VectorXd epoch(n);
  Vector<uint16_t> leap(n);
  dates(epoch, leap);
  bool prior = vf_bool("prior");
  if (prior) t.compute_nodal_corrections(Astronomic(k, 1e8, 0));
  for (size_t j = 0; j < t.size(); ++j) t[j]->tide(value("tide"));
  wave::Table saved(t);
  Eigen::MatrixXd f, vu;
  std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, k);
  vf_reach("modulations");
  vf_check(f.rows() == 5 && f.cols() == n && vu.rows() == 5 && vu.cols() == n, "one row for each constituent, one column for each date");
  for (int i = 0; i < n; ++i) {
    wave::Table r(std::vector<std::string>{"M2", "S1", "Mf", "L2", "MK3"});
    r.compute_nodal_corrections(Astronomic(k, epoch(i), leap(i)));
    for (int j = 0; j < 5; ++j) {
      vf_check(vf_close(f(j, i), r[j]->f(), 1e-9), "node factor at the date");
      vf_check(vf_close_mod(vu(j, i), r[j]->vu(), 2 * PI, 1e-9), "argument at the date");
    }
  }
  for (int j = 0; j < 5; ++j) {
    vf_check(vf_and(same(t[j]->tide(), saved[j]->tide(), 0), vf_close(t[j]->f(), saved[j]->f(), 0)), "the table keeps its tide and node factors");
    vf_check(vf_and(vf_close(t[j]->vu(), saved[j]->vu(), 0), vf_close(t[j]->v(), saved[j]->v(), 0)), "the table keeps its arguments");
  }
}
HARNESS(h_tide_shapes) {
  wave::Table t(std::vector<std::string>{"M2", "S1"});
  int a = vf_choose("a", 3), b = vf_choose("b", 3), w = vf_choose("w", 4), what = vf_choose("what", 4);
  Eigen::VectorXd epoch = Eigen::VectorXd::Zero(a);
  Vector<uint16_t> leap = Vector<uint16_t>::Zero(b);
  bool refused = false;
  bool valid = a == b;
  try {
    if (what == 0) {
      t.compute_nodal_modulations(epoch, leap, formulae(0));
    } else if (what == 1) {
      Eigen::VectorXcd z = Eigen::VectorXcd::Zero(w);
      valid = valid && w == 2;
      auto r = t.tide_from_tide_series(epoch, leap, z, formulae(0));
      vf_check(r.size() == a, "one value for each date");
    } else if (what == 2) {
      Eigen::MatrixXcd z = Eigen::MatrixXcd::Zero(w, a);
      valid = w == 2;
      auto r = t.tide_from_mapping(0, 0, z, formulae(0), 1);
      vf_check(r.rows() == a && r.cols() == 2, "one row for each point, one column for each constituent");
    } else {
      Model m;
      Eigen::VectorXd lon = Eigen::VectorXd::Zero(w == 3 ? a + 1 : a), lat = Eigen::VectorXd::Zero(w == 2 ? a + 1 : a);
      valid = valid && w < 2;
      m.quality.assign(8, kUndefined);
      auto r = evaluate_tide<double>(&m, epoch, leap, lon, lat, Settings(), 1);
      vf_check(std::get<0>(r).size() == a && std::get<1>(r).size() == a && std::get<2>(r).size() == a, "one value for each point");
    }
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach(valid ? "valid" : "invalid");
  vf_check(refused == !valid, "the arguments are refused exactly when their sizes differ");
}
// tide_from_tide_series: sum over the constituents, date by date
HARNESS(h_tide_series) {
  const int n = 2;
  const std::vector<std::string> names[] = {{"M2"}, {"O1", "M2", "Mf", "M4"}};
  const auto& nm = names[vf_choose("table", 2)];
  wave::Table t(nm);
  const int m = static_cast<int>(nm.size());
  Formulae k = formulae(vf_choose("formulae", 3));
  Eigen::VectorXd epoch(n);
  Vector<uint16_t> leap(n);
  dates(epoch, leap);
  Eigen::VectorXcd z(m);
  for (int j = 0; j < m; ++j) z(j) = value("wave");
  for (int j = 0; j < m; ++j) t[j]->tide(value("tide"));
  wave::Table saved(t);
  Eigen::VectorXd got = t.tide_from_tide_series(epoch, leap, z, k);
  vf_reach("series");
  vf_check(got.size() == n, "one value for each date");
  for (int i = 0; i < n; ++i) {
    wave::Table r(nm);
    r.compute_nodal_corrections(Astronomic(k, epoch(i), leap(i)));
    double want = 0;
    for (int j = 0; j < m; ++j) want += component(*r[j], z(j));
    vf_check(vf_close(got(i), want, 1e-9), "tide at the date");
  }
  for (int j = 0; j < m; ++j)
    vf_check(vf_and(same(t[j]->tide(), saved[j]->tide(), 0), vf_and(vf_close(t[j]->f(), saved[j]->f(), 0), vf_close(t[j]->vu(), saved[j]->vu(), 0))), "the table is left alone");
}
// tide_from_mapping: components of each point, whatever the threads
HARNESS(h_tide_mapping) {
  const int n = vf_choose("points", 4);
  wave::Table t(std::vector<std::string>{"M2", "Mf"});
  int64_t threads = vf_concrete(vf_int("threads", 0, 4));
  Formulae k = formulae(vf_choose("formulae", 3));
  double epoch = vf_double("epoch", T0, T1);
  uint16_t leap = static_cast<uint16_t>(vf_int("leap", 0, 65535));
  Eigen::MatrixXcd z(2, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 2; ++j) z(j, i) = value("wave");
  // another table and another date may have been used before
  if (threads == 1 && vf_choose("other table", 2)) {
    wave::Table o(std::vector<std::string>{"K1", "Ssa"});
    o.tide_from_mapping(1e9, 0, z, formulae(2), 1);
    t.tide_from_mapping(1.1e9, 0, z, formulae(2), 1);
  }
  Eigen::MatrixXd got = t.tide_from_mapping(epoch, leap, z, k, static_cast<size_t>(threads));
  vf_reach("mapping");
  vf_check(got.rows() == n && got.cols() == 2, "one row for each point, one column for each constituent");
  wave::Table r(std::vector<std::string>{"M2", "Mf"});
  r.compute_nodal_corrections(Astronomic(k, epoch, leap));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 2; ++j) vf_check(vf_close(got(i, j), component(*r[j], z(j, i)), 1e-9), "component of a constituent at a point");
  wave::Table fresh(std::vector<std::string>{"M2", "Mf"});
  for (int j = 0; j < 2; ++j) vf_check(vf_and(vf_close(t[j]->f(), fresh[j]->f(), 0), vf_close(t[j]->vu(), fresh[j]->vu(), 0)), "the table is left alone");
}

// build_wave_table: which constituents are dynamic, which are inferred
HARNESS(h_tide_build) {
  Model m;
  int c = vf_choose("constituent", 25), combo = vf_choose("combination", 8);
  bool given[75] = {}, excluded[75] = {}, declared[75] = {};
  std::vector<Constituent> out, dyn;
  for (int k = 0; k < 3; ++k) {
    int i = c + 25 * k, b = (combo + 3 * k) % 8;
    Constituent id = static_cast<Constituent>(i);
    given[i] = b & 1;
    excluded[i] = b & 2;
    declared[i] = b & 4;
    if (given[i]) add(m, id, {0.0});
    if (excluded[i]) out.insert(out.begin(), id);
    if (declared[i]) dyn.push_back(id);
  }
  m.dynamic(dyn);
  wave::Table t = detail::build_wave_table<double>(&m, out);
  wave::Table fresh;
  vf_reach("build");
  vf_check(t.size() == 75, "the table is complete");
  for (int i = 0; i < 75; ++i) {
    Constituent k = static_cast<Constituent>(i);
    bool want = (given[i] && !excluded[i]) || declared[i];
    vf_check(t[k]->dynamic() == want, "dynamic: given by the model and not excluded, or declared dynamic");
    vf_check(t[k]->admittance() == (!want && fresh[k]->admittance()), "the constituents that are not dynamic keep their inference");
  }
}

// detail::evaluate_tide: which terms are summed, and where
namespace {
const Constituent GIVEN[] = {kM2, kN2, kK2, kQ1, kO1, kK1, kS2, kM4, kMm, kMf, kMu2};
const int NG = sizeof(GIVEN) / sizeof(GIVEN[0]);
}  // namespace
static void sum(int kind, Quality q) {
  Model m(kind ? kRadial : kTide);
  std::vector<cplx> z;
  for (int i = 0; i < NG; ++i) {
    z.push_back(value("model"));
    add(m, GIVEN[i], {z[i]});
  }
  int scenario = vf_choose("scenario", 4);
  if (scenario == 1) m.dynamic({kR2, kMtm});
  Settings settings(formulae(0), 0, scenario == 2   ? std::vector<Constituent>{kMu2, kM4, kMf}
                                    : scenario == 3 ? std::vector<Constituent>{kM2, kK1}
                                                    : std::vector<Constituent>{});
  m.quality = {q};
  double epoch = vf_double("epoch", T0, T1), lat = vf_double("lat", -90, 90);
  wave::Table t = detail::build_wave_table<double>(&m, settings.excluded());
  wave::LongPeriodEquilibrium l(t);
  std::unique_ptr<Accelerator> acc(m.accelerator(settings.astronomic_formulae(), settings.time_tolerance()));
  double h, lp;
  Quality got;
  std::tie(h, lp, got) = detail::evaluate_tide<double>(&m, epoch, 0, 0, lat, t, l, acc.get());
  vf_reach(q == kUndefined ? "undefined" : "defined");
  vf_check(got == q, "the quality is that of the interpolation");
  Astronomic a(formulae(0), epoch, 0);
  wave::Table r = detail::build_wave_table<double>(&m, settings.excluded());
  double wl = kind ? 0 : wave::LongPeriodEquilibrium(r).lpe_minus_n_waves(a, lat), w = 0;
  if (q == kUndefined) {
    vf_check(std::isnan(h), "no tide where the model is not defined");
    vf_check(vf_close(lp, wl, 1e-9), "the equilibrium tide is given where the model is not defined");
    return;
  }
  r.compute_nodal_corrections(a);
  for (int i = 0; i < NG; ++i) r[GIVEN[i]]->tide(z[i]);
  r.admittance();
  for (int i = 0; i < 75; ++i) {
    const Wave& x = *r[static_cast<Constituent>(i)];
    if (!x.dynamic() && !x.admittance()) continue;
    double v = component(x, x.tide());
    if (x.type() == Wave::kShortPeriod)
      w += v;
    else
      wl += v;
  }
  vf_check(vf_close(h, w, 1e-7), "sum of the diurnal and semi-diurnal constituents");
  vf_check(vf_close(lp, wl, 1e-7), "sum of the long-period constituents");
}
HARNESS(h_tide_sum_ocean) { sum(0, kInterpolated); }
HARNESS(h_tide_sum_radial) { sum(1, vf_choose("quality", 2) ? kExtrapolated1 : kExtrapolated3); }
HARNESS(h_tide_undefined_ocean) { sum(0, kUndefined); }
HARNESS(h_tide_undefined_radial) { sum(1, kUndefined); }

// fes::evaluate_tide: every point has the value it has alone
static void batch(int threads) {
  const int nc = 2;
  Model m(kRadial);
  const int n = 3;
  std::vector<cplx> z;
  const Constituent in[] = {kM2, kO1, kMm};
  for (int c = 0; c < nc; ++c) {
    std::vector<cplx> v;
    for (int i = 0; i < n; ++i) v.push_back(value("model"));
    add(m, in[c], v);
  }
  int scenario = vf_choose("scenario", 4);
  int undefined = scenario == 0 ? n : scenario == 3 ? 1 : scenario - 1, shared = scenario == 1;
  if (scenario == 0) m.hole = {{kM2, 1}, {kO1, 2}};
  for (int i = 0; i < n; ++i) m.quality.push_back(i == undefined ? kUndefined : i == (scenario == 3 ? 0 : 1) ? kExtrapolated2 : kInterpolated);
  double date = vf_double("epoch", 1e6, 1.02e6), other = date + (scenario == 2 ? -1 : 1) * (scenario == 3 ? 86400 : vf_double("later", 1, 1e5));
  Eigen::VectorXd epoch(n), lon(n), lat(n);
  Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) {
    epoch(i) = scenario == 3 ? (i == 2 ? other : date) : (i == 1 ? other : date);  // ABA or AAB
    leap(i) = 0;
    lon(i) = i == 2 && shared ? 0 : i;
    lat(i) = vf_double("lat", -90, 90);
  }
  Settings settings(formulae(0), 0);
  Eigen::VectorXd h, lp;
  Vector<Quality> q;
  std::tie(h, lp, q) = evaluate_tide<double>(&m, epoch, leap, lon, lat, settings, static_cast<size_t>(threads));
  vf_reach("batch");
  for (int i = 0; i < n; ++i) {
    wave::Table t = detail::build_wave_table<double>(&m, settings.excluded());
    wave::LongPeriodEquilibrium l(t);
    std::unique_ptr<Accelerator> acc(m.accelerator(settings.astronomic_formulae(), settings.time_tolerance()));
    double wh, wl;
    Quality wq;
    std::tie(wh, wl, wq) = detail::evaluate_tide<double>(&m, epoch(i), leap(i), lon(i), lat(i), t, l, acc.get());
    vf_check(q(i) == wq, "quality of the point");
    vf_check(vf_and(vf_close(h(i), wh, 1e-9), vf_close(lp(i), wl, 1e-9)), "tide of the point");
  }
}
HARNESS(h_tide_batch0) { batch(0); }
HARNESS(h_tide_batch1) { batch(1); }
HARNESS(h_tide_batch2) { batch(2); }
HARNESS(h_tide_batch3) { batch(3); }

// the accelerator
HARNESS(h_acc_tolerance) {
  double tol = vf_double("tolerance", 0, 1e6);
  int k = vf_choose("formulae", 3);
  bool drift = vf_choose("drift", 2);
  Accelerator acc(formulae(k), tol, 0);
  double e[3];
  double h = 0, t = 0;
  for (int i = 0; i < 3; ++i) {
    // any date, or one close to the previous
    e[i] = i == 0 || !drift ? vf_double("epoch", 0, 4e9) : e[i - 1] + vf_double("step", -1.5e6, 1.5e6);
    const Astronomic& got = acc.calculate_angle(e[i], 0);
    h = got.h();
    t = got.t();
    bool ok = false;
    for (int j = 0; j <= i; ++j) {
      Astronomic a(formulae(k), e[j], 0);
      double d = e[i] - e[j];
      ok = ok | vf_and(vf_and(d <= tol, -d <= tol), vf_and(vf_close(h, a.h(), 1e-9), vf_close(t, a.t(), 1e-9)));
    }
    vf_check(ok, "the angles are those of a date requested within the tolerance");
  }
  vf_reach("tolerance");
}
HARNESS(h_acc_exact) {
  int k = vf_choose("formulae", 3);
  Accelerator acc(formulae(k), 0, 0);
  double e1 = vf_double("epoch", 0, 4e9), e2 = e1 + vf_double("later", 1e-3, 4e9);
  uint16_t l1 = static_cast<uint16_t>(vf_int("leap", 0, 30000)), l2 = static_cast<uint16_t>(l1 + vf_int("more", 1, 30000));
  int same_date = vf_choose("same date", 3), same_leap = vf_choose("same leap", 2);
  if (same_date == 1) e2 = e1;
  if (same_date == 2) std::swap(e1, e2);
  if (same_leap) l2 = l1;
  acc.calculate_angle(e1, l1);
  const Astronomic& got = acc.calculate_angle(e2, l2);
  Astronomic a(formulae(k), e2, l2);
  vf_reach("exact");
  vf_check(vf_close(got.h(), a.h(), 1e-9), "without tolerance the angles are those of the date and leap seconds (h)");
  vf_check(vf_close(got.s(), a.s(), 1e-9), "without tolerance the angles are those of the date and leap seconds (s)");
  vf_check(vf_close(got.t(), a.t(), 1e-9), "without tolerance the angles are those of the date and leap seconds (t)");
}

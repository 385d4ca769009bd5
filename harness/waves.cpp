// Constituents: arguments, node factors, frequencies, names, table.
#include <cmath>
#include <complex>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include "fes/angle/astronomic.hpp"
#include "fes/constituent.hpp"
#include "fes/wave/table.hpp"
#include "vf.h"
using namespace fes;
using angle::Astronomic;
using angle::Formulae;
static const double PI = 3.14159265358979323846;
namespace {
enum Factor { F_1, F_O1, F_OO1, F_J1, F_M1, F_M2, F_M3, F_MF, F_MM, F_M22, F_M23, F_M24, F_K1, F_K2, F_79, F_L2, F_M2_K2,
  F_M2_K1, F_M2_O1, F_M22_K1, F_M22_K2, F_141 };
struct Spec {
  int id;
  const char* name;
  int long_period, admittance, t, s, h, p, p1, shift, xi, nu, nup, nus, factor;
  const char* doodson;
};
const Spec SPEC[] = {
#define W(...) {__VA_ARGS__},
#include "waves.inc"
#undef W
};
const int N = sizeof(SPEC) / sizeof(SPEC[0]);
Formulae formulae(int k) {
  return k == 0 ? Formulae::kSchuremanOrder1 : k == 1 ? Formulae::kSchuremanOrder3 : Formulae::kMeeus;
}
Astronomic date() {
  Formulae f = formulae(vf_choose("formulae", 3));
  return Astronomic(f, vf_double("epoch", -4e9, 8e9), static_cast<uint16_t>(vf_int("leap", 0, 65535)));
}
double factor(int k, const Astronomic& a) {
  const double I = a.i(), si = std::sin(I), s2i = std::sin(2 * I), c = std::cos(I / 2), s = std::sin(I / 2);
  const double o1 = si * c * c / 0.38, m2 = c * c * c * c / 0.9154;
  const double k1 = std::sqrt(0.8965 * s2i * s2i + 0.6001 * s2i * std::cos(a.nu()) + 0.1006);
  const double k2 = std::sqrt(19.0444 * si * si * si * si + 2.7702 * si * si * std::cos(2 * a.nu()) + 0.0981);
  switch (k) {
    case F_1: return 1;
    case F_O1: return o1;
    case F_OO1: return si * s * s / 0.0164;
    case F_J1: return s2i / 0.7214;
    case F_M1: return o1 * std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p() - a.xi())));
    case F_M2: return m2;
    case F_M3: return c * c * c * c * c * c / 0.8758;
    case F_MF: return si * si / 0.1578;
    case F_MM: return (2.0 / 3 - si * si) / 0.5021;
    case F_M22: return m2 * m2;
    case F_M23: return m2 * m2 * m2;
    case F_M24: return m2 * m2 * m2 * m2;
    case F_K1: return k1;
    case F_K2: return k2;
    case F_79: return si * si / 0.1565;
    case F_L2: return m2 * a.x1ra();
    case F_M2_K2: return m2 * k2;
    case F_M2_K1: return m2 * k1;
    case F_M2_O1: return m2 * o1;
    case F_M22_K1: return m2 * m2 * k1;
    case F_M22_K2: return m2 * m2 * k2;
    default: return (si - 1.25 * si * si * si) / 0.3192;
  }
}
std::string msg(const char* a, const char* b) { return std::string(a) + b; }
}  // namespace

// Node factors, Schureman pages 25, 35, 36, 43, 44 and 46.
static void check_factors(const Astronomic& a, int lo, int hi) {
  wave::Table table;
  table.compute_nodal_corrections(a);
  vf_reach("table");
  for (int i = lo; i < hi; ++i)
    if (i != k2MK6)
      vf_check(vf_close(table[static_cast<Constituent>(i)]->f(), factor(SPEC[i].factor, a), 1e-9),
               msg("node factor of ", SPEC[i].name).c_str());
}
static void factors(int lo, int hi) { check_factors(date(), lo, hi); }
// 2MK6 is documented as f(M2)^2 f(K2); the unit tests expect f(M2)^3 f(K2).
HARNESS(h_wave_factor_2mk6) {
  Astronomic a(Formulae::kSchuremanOrder1, vf_double("epoch", -4e9, 8e9), 0);
  wave::Table table(std::vector<Constituent>{k2MK6});
  table.compute_nodal_corrections(a);
  double f = table[k2MK6]->f(), m2 = factor(F_M2, a), k2 = factor(F_K2, a);
  vf_reach("table");
  bool documented = vf_close(f, m2 * m2 * k2, 1e-9), tested = vf_close(f, m2 * m2 * m2 * k2, 1e-9);
  vf_check(!vf_and(!documented, !tested), "2MK6 factor neither documented nor tested");
  vf_check(documented, "node factor of 2MK6");
}
HARNESS(h_wave_factor1) { factors(0, N / 2); }
HARNESS(h_wave_factor2) { factors(N / 2, N); }

// Arguments: V, u and V + u modulo a turn.
static void check_arguments(const Astronomic& a, const wave::Table& table, int lo, int hi);
static void arguments(int lo, int hi) {
  Astronomic a = date();
  wave::Table table;
  table.compute_nodal_corrections(a);
  vf_reach("table");
  check_arguments(a, table, lo, hi);
}
static void check_arguments(const Astronomic& a, const wave::Table& table, int lo, int hi) {
  for (int i = lo; i < hi; ++i) {
    const Spec& w = SPEC[i];
    const auto& wave = table[static_cast<Constituent>(i)];
    double v = w.t * a.t() + w.s * a.s() + w.h * a.h() + w.p * a.p() + w.p1 * a.p1() + w.shift * PI / 2;
    double u = w.xi * a.xi() + w.nu * a.nu() + w.nup * a.nuprim() + w.nus * a.nusec();
    if (i == kM13)
      u = u - (1 / std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p() - a.xi())))) * PI / 180;
    if (i == kL2) u = u - a.r();
    vf_check(vf_close(wave->v(), v, 1e-8), msg("argument V of ", w.name).c_str());
    vf_check(vf_close(wave->u(), u, 1e-8), msg("nodal phase correction u of ", w.name).c_str());
    vf_check(vf_close_mod(wave->vu(), v + u, 2 * PI, 1e-8), msg("V + u of ", w.name).c_str());
    vf_check(vf_and(wave->vu() > -2 * PI - 1e-9, wave->vu() < 2 * PI + 1e-9), msg("V + u within a turn for ", w.name).c_str());
  }
}
// Any angles, in the ranges those of a date have (an order of magnitude for the
// derived ones: |xi|, |nu|, |nu'| < 0.25, |nu''| < 0.5, |R| < 0.42).
static Astronomic any_angles() {
  Astronomic a(Formulae::kSchuremanOrder1, vf_double("epoch", -4e9, 8e9), 0);
  vf_generalize(&a, sizeof(a), "angle");
  for (double x : {a.xi(), a.nu(), a.nuprim()}) vf_assume(vf_and(x < 0.25, x > -0.25));
  vf_assume(vf_and(a.nusec() < 0.5, a.nusec() > -0.5));
  vf_assume(vf_and(a.r() < 0.42, a.r() > -0.42));
  vf_assume(vf_and(a.i() < 0.5, a.i() > 0.3));
  vf_assume(vf_and(a.x1ra() < 1.5, a.x1ra() > 0.5));
  for (double x : {a.s(), a.h(), a.p(), a.n(), a.p1()}) vf_assume(vf_and(x < 6.284, x >= 0));
  vf_assume(vf_and(a.t() < 3.142, a.t() > -3.142));
  return a;
}
HARNESS(h_wave_any_factor) { check_factors(any_angles(), 0, N); }
HARNESS(h_wave_any_args) {
  Astronomic a = any_angles();
  wave::Table table;
  table.compute_nodal_corrections(a);
  vf_reach("any");
  check_arguments(a, table, 0, N);
}
HARNESS(h_wave_any_history) {
  Astronomic a = any_angles(), b = any_angles();
  wave::Table t1, t2;
  t1.compute_nodal_corrections(b);
  t1.compute_nodal_corrections(a);
  t2.compute_nodal_corrections(a);
  vf_reach("history");
  for (int i = 0; i < N; ++i) {
    const auto &x = t1[static_cast<Constituent>(i)], &y = t2[static_cast<Constituent>(i)];
    vf_check(vf_and(vf_close(x->v(), y->v(), 0), vf_close(x->u(), y->u(), 0)), msg("argument of the last date for ", SPEC[i].name).c_str());
    vf_check(vf_close(x->f(), y->f(), 0), msg("node factor of the last date for ", SPEC[i].name).c_str());
  }
}
HARNESS(h_wave_args1) { arguments(0, N / 3); }
HARNESS(h_wave_args2) { arguments(N / 3, 2 * N / 3); }
HARNESS(h_wave_args3) { arguments(2 * N / 3, N); }

// The state of a constituent is that of the last date and of this date only.
HARNESS(h_wave_history) {
  Astronomic a(Formulae::kSchuremanOrder3, vf_double("epoch", -4e9, 8e9), 0), b(Formulae::kSchuremanOrder3, 1.3e9, 0);
  wave::Table t1, t2;
  t1.compute_nodal_corrections(b);
  t1.compute_nodal_corrections(a);
  t2.compute_nodal_corrections(a);
  vf_reach("history");
  for (int i = 0; i < N; ++i) {
    const auto &x = t1[static_cast<Constituent>(i)], &y = t2[static_cast<Constituent>(i)];
    vf_check(vf_and(vf_and(vf_close(x->v(), y->v(), 0), vf_close(x->u(), y->u(), 0)), vf_close(x->f(), y->f(), 0)),
             msg("state of the last date for ", SPEC[i].name).c_str());
  }
}

// Frequencies from Schureman's table 1, periods, Doodson numbers, flags.
HARNESS(h_wave_constants) {
  const double century = 3155760000.0;
  const double S = (1336 * 360 + 307.892) / century * 3600, H = (100 * 360 + 0.769) / century * 3600,
               P = (11 * 360 + 109.032) / century * 3600, P1 = 1.719 / century * 3600;
  int i = static_cast<int>(vf_concrete(vf_int("wave", 0, N - 1)));
  const Spec& w = SPEC[i];
  auto wave = wave::Table::wave_factory(static_cast<Constituent>(i));
  double speed = w.t * 15 + w.s * S + w.h * H + w.p * P + w.p1 * P1;
  vf_reach("constants");
  vf_check(wave->ident() == i, "identifier of the constituent");
  vf_check(vf_close(wave->freq(), speed * PI / 180, 1e-12), "angular frequency");
  if (speed != 0) vf_check(vf_close(wave->period() * speed, 360, 1e-9), "period");
  vf_check((wave->type() == Wave::kLongPeriod) == (w.long_period != 0), "type of the constituent");
  vf_check(wave->admittance() == (w.admittance != 0), "computed by admittance");
  vf_check(!wave->dynamic(), "not computed dynamically by default");
  if (i != kM8 && i != k2MN6) vf_check(wave->doodson_number() == w.doodson, "Doodson number");
}

// Names.
static char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
HARNESS(h_name_roundtrip) {
  auto known = constituents::known();
  vf_check(static_cast<int>(known.size()) == N, "number of constituents");
  int i = vf_choose("constituent", N);
  Constituent c = static_cast<Constituent>(i);
  std::string name = constituents::name(c);
  vf_reach("name");
  vf_check(name == SPEC[i].name, "name of the constituent");
  vf_check(known[i] == name, "known constituents in the order of their identifiers");
  vf_check(constituents::parse(name) == c, "the name designates the constituent");
}
// every spelling of the name: each letter in either case
HARNESS(h_name_case) {
  int i = vf_choose("constituent", N);
  std::string name = SPEC[i].name;
  uint64_t upper = vf_bits("case");
  for (size_t k = 0; k < name.size(); ++k) {
    char l = lower(name[k]), u = l >= 'a' && l <= 'z' ? static_cast<char>(l - 32) : l;
    name[k] = ((upper >> k) & 1) ? u : l;
  }
  vf_reach("case");
  vf_check(constituents::parse(name) == i, "a name is recognized whatever its case");
}
// every string of up to 4 characters is a name or is refused
static void any_string(int n) {
  std::string s(n, ' ');
  for (int k = 0; k < n; ++k) s[k] = static_cast<char>(vf_byte("char"));
  int found = -1;
  try {
    found = constituents::parse(s);
  } catch (const std::exception&) {
  }
  bool ok = found == -1;
  for (int i = 0; i < N; ++i) {
    std::string name = SPEC[i].name;
    if (static_cast<int>(name.size()) != n) continue;
    bool same = true;
    for (int k = 0; k < n; ++k) {
      char l = lower(name[k]), u = l >= 'a' && l <= 'z' ? static_cast<char>(l - 32) : l;
      same = vf_and(same, !vf_and(s[k] != l, s[k] != u));
    }
    if (found == i) ok = same;
    if (found == -1) ok = vf_and(ok, !same);
  }
  vf_reach(found == -1 ? "refused" : "recognized");
  vf_check(ok, "a string designates the constituent of that name or is refused");
}
HARNESS(h_name_any1) { any_string(1); }
HARNESS(h_name_any2) { any_string(2); }
HARNESS(h_name_any3) { any_string(3); }
HARNESS(h_name_any4) { any_string(4); }
HARNESS(h_name_any0) { any_string(0); }
HARNESS(h_name_any5) { any_string(5); }
HARNESS(h_name_any6) { any_string(6); }
HARNESS(h_name_any7) { any_string(7); }
HARNESS(h_name_any8) { any_string(8); }
HARNESS(h_name_unknown) {
  bool thrown = false;
  int c = static_cast<int>(vf_concrete(vf_int("identifier", N, 255)));
  try {
    constituents::name(static_cast<Constituent>(c));
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  vf_check(thrown, "no name for an unknown identifier");
  thrown = false;
  try {
    wave::Table::wave_factory(static_cast<Constituent>(c));
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  vf_reach("unknown");
  vf_check(thrown, "no constituent for an unknown identifier");
}

// Tables.
static void check_table(const wave::Table& t, const bool* in) {
  int n = 0;
  for (int i = 0; i < N; ++i) n += in[i];
  vf_check(t.size() == static_cast<size_t>(n), "size of the table");
  auto names = t.constituents();
  vf_check(names.size() == static_cast<size_t>(n), "number of names");
  auto it = t.begin();
  for (int i = 0, k = 0; i < N; ++i) {
    bool thrown = false;
    Constituent c = static_cast<Constituent>(i), got = kM0;
    try {
      const auto& w = t[c];
      if (w) got = w->ident();
      if (!w) thrown = true;
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    vf_check(thrown == !in[i], "a constituent is available if and only if it was selected");
    auto found = t.find(SPEC[i].name);
    vf_check((found != nullptr) == in[i], "find by name");
    if (!in[i]) continue;
    vf_check(got == c, "access by identifier");
    vf_check(found->ident() == c, "access by name");
    vf_check(t[static_cast<size_t>(k)]->ident() == c, "access by index");
    vf_check(names[k] == SPEC[i].name, "name of the constituent at an index");
    vf_check(it != t.end(), "iteration reaches every constituent");
    vf_check((*it)->ident() == c, "iteration in the order of the identifiers");
    ++it;
    ++k;
  }
  vf_check(it == t.end(), "iteration ends after the last constituent");
  bool thrown = false;
  try {
    t[static_cast<size_t>(n)];
  } catch (const std::out_of_range&) {
    thrown = true;
  }
  vf_check(thrown, "an index past the end is refused");
}
HARNESS(h_table_complete) {
  bool in[N];
  for (auto& b : in) b = true;
  vf_reach("complete");
  check_table(wave::Table(), in);
  check_table(wave::Table(std::vector<Constituent>{}), in);
}
static void selection(int step) {
  bool in[N];
  for (auto& b : in) b = false;
  int a = vf_choose("first", N), b = (a * 7 + step) % N, c = (a + 38) % N;
  in[a] = in[b] = in[c] = true;
  vf_reach("selection");
  if (vf_choose("by", 2) == 0)
    check_table(wave::Table(std::vector<std::string>{SPEC[c].name, SPEC[a].name, SPEC[b].name}), in);
  else
    check_table(wave::Table(std::vector<Constituent>{static_cast<Constituent>(b), static_cast<Constituent>(c), static_cast<Constituent>(a)}), in);
}
HARNESS(h_table_selection) { selection(1); }
// A copy of a table has the same content and a state of its own.
HARNESS(h_table_copy) {
  std::vector<std::string> names{"M2", "K1", "L2", "M13"};
  wave::Table t(vf_choose("complete", 2) ? std::vector<std::string>{} : names);
  double re = vf_double("re", -100, 100), im = vf_double("im", -100, 100), x = vf_double("x", -100, 100);
  Astronomic a(Formulae::kSchuremanOrder1, 1e9, 0), b(Formulae::kSchuremanOrder1, 1.3e9, 0);
  t.compute_nodal_corrections(a);
  bool adm = vf_bool("admittance"), dyn = vf_bool("dynamic");
  t[kL2]->tide({re, im});
  t[kL2]->admittance(adm);
  t[kL2]->dynamic(dyn);
  wave::Table u(t), v;
  v = t;
  double vl = t[kL2]->v(), ul = t[kL2]->u(), fl = t[kL2]->f();
  for (wave::Table* w : {&u, &v}) {
    vf_check(w->size() == t.size(), "size of the copy");
    vf_check(w->constituents() == t.constituents(), "constituents of the copy");
    auto& l = *(*w)[kL2];
    vf_check(vf_and(vf_close(l.tide().real(), re, 0), vf_close(l.tide().imag(), im, 0)), "tide of the copy");
    vf_check(l.admittance() == adm, "admittance of the copy");
    vf_check(l.dynamic() == dyn, "dynamic of the copy");
    vf_check(vf_and(vf_and(vf_close(l.v(), vl, 0), vf_close(l.u(), ul, 0)), vf_close(l.f(), fl, 0)), "corrections of the copy");
    l.tide({x, x});
    l.admittance(!adm);
    w->compute_nodal_corrections(b);
    auto& o = *t[kL2];
    vf_check(vf_and(vf_close(o.tide().real(), re, 0), vf_close(o.tide().imag(), im, 0)), "the copied table keeps its tides");
    vf_check(o.admittance() == adm, "the copied table keeps its flags");
    vf_check(vf_and(vf_and(vf_close(o.v(), vl, 0), vf_close(o.u(), ul, 0)), vf_close(o.f(), fl, 0)), "the copied table keeps its corrections");
    Astronomic ref(Formulae::kSchuremanOrder1, 1.3e9, 0);
    wave::Table fresh;
    fresh.compute_nodal_corrections(ref);
    for (Constituent c : {kL2, kM13, kK1})
      vf_check(vf_close((*w)[c]->vu(), fresh[c]->vu(), 0), "the copy computes its own corrections");
  }
  vf_reach("copy");
}

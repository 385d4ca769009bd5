// Axis: construction, direct lookup, bracketing search, serialization.
#include <Eigen/Core>
#include <stdexcept>
#include <string>

#include "fes/axis.hpp"
#include "vf.h"
#include "corrupt.h"
using fes::Axis;

// An evenly spaced axis start + k*step built from symbolic start and a
// symbolic step of either sign.
static Eigen::VectorXd ramp(int n, double start, double step) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = start + k * step;
  return v;
}
static double pick_step(double lo, double hi) {
  double s = vf_double("step", lo, hi);
  return vf_choose("descending", 2) ? -s : s;
}

static void construct(int n) {
  double start = vf_double("start", -360, 360), step = pick_step(1e-3, 50);
  Axis a(ramp(n, start, step));
  vf_reach("built");
  vf_check(a.size() == n, "size");
  vf_check(!a.is_circular(), "not circular unless asked");
  vf_check(a.is_ascending() == (step > 0), "direction");
  vf_check(vf_close(a.start(), start, 1e-9), "start");
  vf_check(vf_close(a.step(), step, 1e-9), "step");
  vf_check(vf_close(a.end(), start + (n - 1) * step, 1e-9), "end");
  vf_check(vf_close(a.min_value(), step > 0 ? start : start + (n - 1) * step, 1e-9), "min_value");
  vf_check(vf_close(a.max_value(), step < 0 ? start : start + (n - 1) * step, 1e-9), "max_value");
  for (int k = 0; k < n; ++k)
    vf_check(vf_close(a(k), start + k * step, 1e-9), "value at index");
  int64_t bad = vf_int("index", -1000, 1000);
  vf_assume(bad < 0 || bad >= n);
  bool threw = false;
  try {
    a(bad);
  } catch (const std::out_of_range&) {
    threw = true;
  }
  vf_check(threw, "index outside the axis is refused");
}
HARNESS(h_axis_construct2) { construct(2); }
HARNESS(h_axis_construct5) { construct(5); }

// Any vector: accepted exactly when evenly spaced.
static void irregular(int n) {
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = vf_double("p", -360, 360);
  double inc = (v[n - 1] - v[0]) / (n - 1);
  bool ok = false, refused = false;
  try {
    Axis a(v);
    ok = true;
    vf_check(a.size() == n, "size");
    for (int k = 0; k < n; ++k)
      vf_check(vf_close(a(k), v[k], 1e-2), "accepted values are reproduced by index");
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_check(ok != refused, "constructor either builds or refuses");
  double worst = 0;
  for (int k = 1; k < n; ++k) {
    double e = v[k] - v[k - 1] - inc;
    e = e < 0 ? -e : e;
    worst = e > worst ? e : worst;
  }
  double ai = inc < 0 ? -inc : inc;
  if (ok) {
    vf_reach("accepted");
    vf_check(ai > 1e-7, "a constant axis is refused");
    vf_check(worst <= 1e-3 + 1e-3 * ai, "an uneven axis is refused");
  } else {
    vf_reach("refused");
    vf_check(ai <= 1e-5 || worst > 1e-7, "an even axis is accepted");
  }
}
HARNESS(h_axis_irregular3) { irregular(3); }
HARNESS(h_axis_irregular4) { irregular(4); }
HARNESS(h_axis_tooshort) {
  int n = vf_choose("n", 2);
  Eigen::VectorXd v(n);
  for (int k = 0; k < n; ++k) v[k] = vf_double("p", -360, 360);
  bool circ = vf_choose("circ", 2);
  bool refused = false;
  try {
    Axis a(v, 1e-6, circ);
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach("short");
  vf_check(refused, "fewer than two points are refused");
}

// Circular construction, including a longitude vector that wraps once.
static Axis circular(int n, double& start, double& step, int& wrap) {
  start = vf_double("start", -360, 360);
  step = vf_choose("descending", 2) ? -360.0 / n : 360.0 / n;
  wrap = vf_choose("wrap", n - 1);  // first index given modulo 360, 0: none
  if (wrap) ++wrap;
  Eigen::VectorXd v = ramp(n, start, step);
  for (int k = wrap; k < n && wrap; ++k) v[k] -= step > 0 ? 360.0 : -360.0;
  return Axis(v, 1e-6, true);
}
static void circ_construct(int n) {
  double start, step;
  int wrap;
  Axis a = circular(n, start, step, wrap);
  vf_reach("built");
  vf_check(a.is_circular(), "a full turn is circular");
  vf_check(a.size() == n, "size");
  for (int k = 0; k < n; ++k)
    vf_check(vf_close_mod(a(k), start + k * step, 360.0, 1e-9), "value at index modulo a turn");
}
HARNESS(h_axis_circ_construct4) { circ_construct(4); }
HARNESS(h_axis_circ_construct3) { circ_construct(3); }
HARNESS(h_axis_partial_turn) {
  int n = 2 + vf_choose("n", 4);
  double start = vf_double("start", -180, 180), step = pick_step(0.01, 60);
  double span = (step < 0 ? -step : step) * n;
  Axis a(ramp(n, start, step), 1e-6, true);
  double d = span - 360;
  d = d < 0 ? -d : d;
  if (d > 1e-2) {
    vf_reach("partial");
    vf_check(!a.is_circular(), "less than a turn is not circular");
  }
  if (d == 0) {
    vf_reach("full");
    vf_check(a.is_circular(), "a full turn is circular");
  }
}

// Bracketing search on a non circular axis.
static void bracket(int n) {
  double start = vf_double("start", -360, 360), step = pick_step(1e-2, 50);
  Axis a(ramp(n, start, step));
  double x = vf_double("x", -4000, 4000);
  double lo = step > 0 ? start : start + (n - 1) * step, hi = step < 0 ? start : start + (n - 1) * step;
  auto r = a.find_indices(x);
  if (x < lo || x > hi) {
    vf_reach("outside");
    vf_check(!r, "outside the axis nothing is found");
    return;
  }
  vf_reach("inside");
  vf_check(!!r, "inside the axis a cell is found");
  if (!r) return;
  int64_t i0 = vf_concrete(std::get<0>(*r)), i1 = vf_concrete(std::get<1>(*r));
  vf_check(i0 >= 0 && i0 < n && i1 >= 0 && i1 < n, "indices inside the axis");
  vf_check(i1 - i0 == 1 || i0 - i1 == 1, "indices are neighbours");
  double a0 = start + i0 * step, a1 = start + i1 * step;
  vf_check((a0 < a1 ? a0 : a1) <= x + 1e-9 && x <= (a0 < a1 ? a1 : a0) + 1e-9, "the cell contains the coordinate");
}
HARNESS(h_axis_bracket2) { bracket(2); }
HARNESS(h_axis_bracket5) { bracket(5); }

// Bracketing search on a circular axis: the cell contains the coordinate
// modulo a turn, in the direction i0 -> i1 of increasing longitude.
static void circ_bracket(int n) {
  double start, step;
  int wrap;
  Axis a = circular(n, start, step, wrap);
  double x = vf_double("x", -1080, 1080);
  auto r = a.find_indices(x);
  vf_reach("found");
  vf_check(!!r, "every longitude is inside a circular axis");
  if (!r) return;
  int64_t i0 = vf_concrete(std::get<0>(*r)), i1 = vf_concrete(std::get<1>(*r));
  vf_check(i0 >= 0 && i0 < n && i1 >= 0 && i1 < n, "indices inside the axis");
  int64_t d = ((i1 - i0) % n + n) % n;
  vf_check(d == 1 || d == n - 1, "indices are neighbours around the circle");
  double cell = 360.0 / n;
  bool east = (d == 1) == (step > 0);  // i1 lies east of i0
  vf_check(step < 0 || east, "ascending: west node first");
  double west = start + (east ? i0 : i1) * step;
  int64_t k = vf_int("turn", -12, 12);
  double t = x - west - 360.0 * k;  // eastward offset modulo a turn
  vf_assume(t >= 0 && t < 360);
  vf_check(t <= cell + 1e-9 || t >= 360 - 1e-9, "the cell contains the coordinate");
}
HARNESS(h_axis_circ_bracket3) { circ_bracket(3); }
HARNESS(h_axis_circ_bracket5) { circ_bracket(5); }

// Adding whole turns to a longitude never changes the answer.
static void circ_shift(int n) {
  double start, step;
  int wrap;
  Axis a = circular(n, start, step, wrap);
  double x = vf_double("x", -540, 540);
  int64_t k = vf_int("k", -3, 3);
  auto r = a.find_indices(x), q = a.find_indices(x + 360.0 * k);
  vf_reach("shift");
  vf_check(!!r == !!q, "both found");
  if (r && q) {
    vf_check(vf_concrete(std::get<0>(*r)) == vf_concrete(std::get<0>(*q)), "same first index");
    vf_check(vf_concrete(std::get<1>(*r)) == vf_concrete(std::get<1>(*q)), "same second index");
  }
  vf_check(vf_concrete(a.find_index(x)) == vf_concrete(a.find_index(x + 360.0 * k)), "same nearest index");
}
HARNESS(h_axis_circ_shift) { circ_shift(4); }

// Nearest index.
static void nearest(int n) {
  double start = vf_double("start", -360, 360), step = pick_step(1e-2, 50);
  Axis a(ramp(n, start, step));
  double x = vf_double("x", -4000, 4000);
  double as = step < 0 ? -step : step;
  double u = (x - start) / step;  // position in units of the step
  int64_t i = vf_concrete(a.find_index(x)), b = vf_concrete(a.find_index(x, true));
  vf_check(i >= -1 && i < n, "index or -1");
  vf_check(b >= 0 && b < n, "bounded index inside the axis");
  if (i >= 0) {
    vf_reach("inside");
    vf_check(b == i, "bounding changes nothing inside");
    double e = x - (start + i * step);
    e = e < 0 ? -e : e;
    vf_check(2 * e <= as + 1e-9, "no other point is closer");
  } else {
    vf_reach("outside");
    vf_check(u <= -0.5 + 1e-9 || u >= n - 0.5 - 1e-9, "-1 only beyond half a step outside");
    vf_check(b == (u < 0 ? 0 : n - 1), "bounded search clamps to the nearer end");
  }
}
HARNESS(h_axis_nearest2) { nearest(2); }
HARNESS(h_axis_nearest5) { nearest(5); }

// Serialization.
static void roundtrip(bool circ) {
  int n = 2 + vf_choose("n", 3);
  double start = vf_double("start", -360, 360);
  double step = circ ? (vf_choose("descending", 2) ? -360.0 / n : 360.0 / n) : pick_step(1e-3, 50);
  Axis a(ramp(n, start, step), 1e-6, circ);
  std::string s = a.getstate();
  Axis b = Axis::setstate(fes::string_view(s.data(), s.size()));
  vf_reach("restored");
  vf_check(a == b, "restored axis is equal");
  vf_check(b.size() == n, "size");
  vf_check(b.is_circular() == a.is_circular(), "circular flag");
  vf_check(b.is_ascending() == a.is_ascending(), "direction");
  vf_check(vf_close(b.start(), a.start(), 0), "start");
  vf_check(vf_close(b.step(), a.step(), 0), "step");
  int64_t k = vf_choose("k", n);
  vf_check(vf_close(b(k), a(k), 0), "values");
}
HARNESS(h_axis_roundtrip) { roundtrip(false); }
HARNESS(h_axis_roundtrip_circ) { roundtrip(true); }
HARNESS(h_axis_truncated) {
  double start = vf_double("start", -360, 360), step = pick_step(1e-3, 50);
  Axis a(ramp(3, start, step));
  std::string s = a.getstate();
  int k = vf_choose("len", 26);
  vf_assume(k < static_cast<int>(s.size()));
  bool refused = false;
  try {
    Axis::setstate(fes::string_view(s.data(), k));
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  vf_reach("truncated");
  vf_check(refused, "a truncated state is refused");
}

// A number of the state replaced by any value: refused, or an axis that can
// be used.
static void corrupted(int range) {
  Axis a(ramp(3, 1.1, 1.3));
  corrupt(a.getstate(), range, [](const char* p, size_t n) {
    Axis b = Axis::setstate(fes::string_view(p, n));
    int64_t i = b.find_index(2.5, vf_choose("bounded", 2));
    vf_check(i >= -1 && i < b.size(), "indexes are inside the axis");
    auto r = b.find_indices(2.5);
    if (r) vf_check(std::get<0>(*r) >= 0 && std::get<0>(*r) < b.size() && std::get<1>(*r) >= 0 && std::get<1>(*r) < b.size(), "bracketing indexes are inside the axis");
  });
}
HARNESS(h_axis_corrupted_small) { corrupted(0); }
HARNESS(h_axis_corrupted_large) { corrupted(2); }

"""The properties and the tasks that decide them."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {}


def T(harness, entry, **kw):
    return dict(harness=harness, entry=entry, **kw)


def hs(f, pat=""):
    return [h for h in re.findall(r"HARNESS\((\w+)\)", open(os.path.join(HERE, "harness", f + ".cpp")).read())
            if re.match(pat, h)]


def prop(pid, title, statement, over, qtext, why, files, mech, tasks, bounds, assume=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      tasks=tasks, bounds=bounds, assume=list(assume), **kw)
    PROPS[pid]["explain"] = kw.get("explain", EXPLAIN)


EXPLAIN = ("Each task executes the real functions (clang LLVM IR of /repo's current source, linked with the harness) "
           "symbolically; every assertion on every feasible path is decided by z3 over all values of the symbolic "
           "inputs within the bounds. A satisfiable negation is replayed on a native ASan/UBSan (TSan for races) build of "
           "the same source and reported only if it reproduces. Undischarged obligations are listed, never counted as proved.")
REAL = "floating-point arithmetic is encoded as real arithmetic (rounding is outside the encoding; comparisons carry a tolerance)"
LIBM = "sin/cos/tan/... are uninterpreted functions constrained by identities and ranges; equality is decided up to those"
ALLOC = "operator new succeeds; the C++ standard library headers and Eigen are executed, not modelled"
CART = dict(rem_fork=True, merge_fp=False, fptoi_window=[-1, 6])

# ------------------------------------------------------------------ threads
THR = [T("thread", h, opts=dict(hwc="sym", races=True, thread_order=o), name=h + ":" + o)
       for h in hs("thread") for o in ("eager", "deferred", "reverse", "lazy")]
prop("C01", "Parallel loops hand every element to exactly one worker",
     "For every size, every requested number of threads and every number of processors reported by the system, the parallel "
     "loop calls its worker on sub-ranges of [0, size) that are pairwise disjoint and together cover the range. With one "
     "thread requested the worker is called once over the whole range, and an empty range is accepted.",
     ["inputs", "configurations", "schedules"], "all sizes 0..12 and 1..2e9, threads 0..6, processors 0..4, four schedules",
     "the tests run a few sizes on one machine's processor count",
     ["include/fes/detail/thread.hpp"], [("parallel_for", "include/fes/detail/thread.hpp")],
     [t for t in THR if "exception" not in t["entry"]],
     "size 0..12 with threads 0..6; size 1..2e9 with threads 0..5; hardware_concurrency 0..4; schedules: workers run at their creation, at the first join (forward, reverse), each at its own join",
     ["std::thread is executed as run-to-completion in four orders; lock-set analysis covers other interleavings of shared accesses", ALLOC])
prop("C02", "A failing worker is reported once all workers are done, without a race",
     "Whatever subset of the workers of a parallel loop throws, the caller receives one of the thrown exceptions, and only "
     "after every worker has finished. If none throws, every element has been processed once. No two threads access the same "
     "memory, one of them writing, without a common lock.",
     ["inputs", "schedules", "fault_sequences"], "all subsets of failing elements, sizes 1..4, threads 0..4, processors 0..4",
     "no test makes several workers fail, and a race needs particular interleavings",
     ["include/fes/detail/thread.hpp"], [("parallel_for", "include/fes/detail/thread.hpp")],
     [t for t in THR if "exception" in t["entry"]],
     "size 1..4, threads 0..4, hardware_concurrency 0..4, any subset failing; schedules: workers run at their creation, at the first join (forward, reverse), each at its own join; lock-set race detection",
     ["std::thread is executed as run-to-completion in four orders; lock-set analysis covers other interleavings of shared accesses", ALLOC])

# ------------------------------------------------------------------ axis
AX = lambda *e, **k: [T("axis", x, **k) for x in e]
prop("C17", "An axis reproduces the coordinates it was built from",
     "An axis is accepted exactly when it has at least two points that are evenly spaced and not constant, ascending or "
     "descending. It then reports its size, direction, bounds, step and the coordinate at each index as given (modulo a turn "
     "for a circular axis), is circular exactly when asked for and spanning a full turn, and refuses an index outside it.",
     ["inputs"], "all starts in [-360,360], steps of either sign, irregular vectors of 3 and 4 points, wrapped longitudes",
     "the tests use a handful of ramps; irregular and wrapped vectors form a continuum",
     ["include/fes/axis.hpp", "src/library/axis.cpp"], [("Axis", "src/library/axis.cpp"), ("Axis", "include/fes/axis.hpp")],
     AX("h_axis_construct2", "h_axis_construct5", "h_axis_irregular3", "h_axis_irregular4", "h_axis_tooshort",
        "h_axis_circ_construct4", "h_axis_circ_construct3", "h_axis_partial_turn"),
     "2 to 6 points, start in [-360,360], |step| in [1e-3,60]", [REAL, ALLOC])
prop("C18", "The cell search on an axis brackets the coordinate",
     "For every coordinate the search on an axis returns two neighbouring indices whose points enclose it, or nothing when it "
     "lies outside a non circular axis. On a circular axis every longitude has a cell, closing cell included, and adding whole "
     "turns to the longitude does not change the answer.",
     ["inputs"], "all coordinates in [-4000,4000] on all axes of 2, 3 and 5 points, either direction, circular or not",
     "the tests look up a few coordinates on a few axes",
     ["include/fes/axis.hpp", "src/library/axis.cpp"], [("Axis::find_indices", "src/library/axis.cpp")],
     AX("h_axis_bracket2", "h_axis_bracket5", "h_axis_circ_bracket3", "h_axis_circ_bracket5", "h_axis_circ_shift"),
     "2 to 5 points, start in [-360,360], |step| in [1e-2,50], x in [-4000,4000] (circular: [-1080,1080])", [REAL, ALLOC])
prop("C19", "The nearest-index search on an axis returns the nearest point",
     "On a non circular axis the nearest-index search returns an index whose point is at most half a step from the "
     "coordinate, and -1 when there is none. The bounded search returns the same inside the axis and the index of the nearer "
     "end outside. On a circular axis the search is unaffected by adding whole turns to the coordinate.",
     ["inputs"], "all coordinates in [-4000,4000] on all axes of 2 and 5 points, either direction; circular axis of 4 points",
     "the tests look up a few coordinates on a few axes",
     ["include/fes/axis.hpp", "src/library/axis.cpp"], [("Axis::find_index", "include/fes/axis.hpp")],
     AX("h_axis_nearest2", "h_axis_nearest5", "h_axis_circ_shift"),
     "2 to 5 points, start in [-360,360], |step| in [1e-2,50], x in [-4000,4000]", [REAL, ALLOC])
prop("C20", "An axis survives its serialized state",
     "The axis restored from the serialized state of an axis is equal to it: size, direction, circularity, start, step and "
     "every coordinate. A truncated state is refused.",
     ["inputs"], "all starts and steps, 2 to 4 points, circular or not; every truncation length",
     "the tests restore one axis", ["src/library/axis.cpp", "include/fes/detail/serialize.hpp"],
     [("Axis::getstate / setstate", "src/library/axis.cpp")],
     AX("h_axis_roundtrip", "h_axis_roundtrip_circ", "h_axis_truncated"),
     "2 to 4 points; truncation at every byte", [REAL, ALLOC])

# ------------------------------------------------------------------ Cartesian
CA = lambda *e, **k: [T("cartesian", x, opts=CART, **k) for x in e]
CF = ["include/fes/tidal_model/cartesian.hpp", "include/fes/detail/math.hpp", "include/fes/detail/grid.hpp", "src/library/axis.cpp"]
prop("C21", "A gridded model interpolates bilinearly between the four enclosing nodes",
     "At every position inside the grid a Cartesian model returns, for each constituent, the bilinear combination of the four "
     "nodes around the position in the stored order (row or column major), with longitudes taken modulo a turn and the closing "
     "cell of a global grid included, and says it is interpolated. Outside the grid it returns NaN and says undefined.",
     ["inputs", "configurations"], "all node values, origins and positions on 3x3 regional and global grids, all axis directions and storage orders",
     "the tests interpolate a few points of one grid", CF,
     [("Cartesian::interpolate", "include/fes/tidal_model/cartesian.hpp"), ("bilinear_interpolation", "include/fes/detail/math.hpp"),
      ("Grid", "include/fes/detail/grid.hpp")],
     CA("h_cart_regional", "h_cart_multi", cost=5) + CA("h_cart_global", cost=9),
     "grids up to 4x3, node values in [-50,50], lon in [-720,720] (global), any origin", [REAL, ALLOC])
prop("C22", "Missing nodes are ignored by the interpolation and counted in its quality",
     "When any subset of the four nodes around a position is missing, the interpolated value is the weighted mean of the "
     "others, and the quality reported is the number of nodes that were used. With no node left the value is NaN and the "
     "quality undefined.",
     ["inputs", "configurations"], "all 16 masks, NaN in either component or infinite values, all positions inside a cell, all node values",
     "the tests cover one masked cell", CF,
     [("bilinear_interpolation", "include/fes/detail/math.hpp"), ("Cartesian::interpolate", "include/fes/tidal_model/cartesian.hpp")],
     CA("h_cart_mask", reach=["none", "some"]), "one cell, fractions in (1e-6, 1-1e-6)", [REAL, ALLOC])
prop("C24", "A gridded model survives its serialized state",
     "The Cartesian model restored from a serialized state has the same axes, tide type, constituents, node values, storage "
     "order and dynamic constituents. A truncated state is refused.",
     ["inputs", "configurations"], "all node values, either direction and storage order, 0 to 2 constituents, 0 to 2 dynamic constituents, every truncation",
     "the tests restore one model", ["include/fes/tidal_model/cartesian.hpp", "include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp"],
     [("Cartesian::getstate / setstate", "include/fes/tidal_model/cartesian.hpp"), ("serialize", "include/fes/detail/serialize.hpp")],
     CA("h_cart_roundtrip", "h_cart_roundtrip_dynamic", "h_cart_truncated"),
     "grids up to 4x2", [REAL, ALLOC])

AO = dict(q_ms=50, rem_abs=True, div_nz=True)
ANG = ["include/fes/angle/astronomic.hpp", "src/library/angle/astronomic.cpp", "include/fes/detail/angle/astronomic/frequency.hpp", "include/fes/detail/math.hpp"]
POLY = "calendar restricted to epochs in [-4e9, 8e9] s (1843-2223), leap seconds in [0, 65535]"
DIVZ = "the divisors of the derived angles (R, nu', nu'') are not zero"
AS = lambda *e, **k: [T("astro", x, opts=AO, **k) for x in e]
WV = lambda *e, **k: [T("waves", x, opts=AO, **k) for x in e]
prop("C04", "The astronomical angles are those of the published polynomials",
     "For every date, T, h, s, p, N and p1 are the polynomials of Schureman (first or third order) or Meeus evaluated at that "
     "date, modulo a turn, reduced to [0, 360) degrees ([-180, 180] for T). Leap seconds shift the date of the Meeus formulae "
     "by one second each and do not affect those of Schureman.",
     ["inputs"], "every epoch and number of leap seconds within the bounds, the three formulae",
     "the tests evaluate a handful of dates", ANG,
     [("Astronomic::schureman_order1/3, meeus", "src/library/angle/astronomic.cpp"), ("normalize_angle", "include/fes/detail/math.hpp")],
     AS("h_astro_schureman1", "h_astro_schureman3", "h_astro_meeus", "h_astro_leap1", "h_astro_leap3", "h_astro_leapm", "h_astro_unknown"),
     POLY, [REAL, LIBM, DIVZ])
prop("C05", "The astronomical angles depend on the date alone",
     "Updating an object to a date gives the angles that a fresh object gives for the same date and formulae, whatever dates "
     "it was updated to before, and updating an object does not alter any other.",
     ["inputs", "histories"], "every date within the bounds, after an update or a construction at another date",
     "the tests construct a new object for each date", ANG, [("Astronomic::update", "include/fes/angle/astronomic.hpp")],
     AS("h_astro_history", "h_astro_back"), POLY + "; histories of two dates", [REAL, LIBM, DIVZ])
prop("C06", "The angles of the moon's orbit derive from N and p as Schureman gives them",
     "I, xi, nu, nu', nu'', R and 1/Ra are the functions of N and p published by Schureman (pages 41 to 46 and 156), with the "
     "branch of xi chosen so that it stays between -180 and 180 degrees.",
     ["inputs"], "every date within the bounds, the three formulae", "the tests evaluate one date", ANG,
     [("Astronomic::update", "src/library/angle/astronomic.cpp")], AS("h_astro_derived"), POLY, [REAL, LIBM, DIVZ])
WF = ["include/fes/wave.hpp", "src/library/wave.cpp", "src/library/wave/table.cpp", "include/fes/wave/table.hpp", "include/fes/angle/astronomic.hpp"]
prop("C07", "The node factor of each constituent is the published one",
     "For every date the nodal amplitude factor f of each of the 75 constituents is the function of I, nu, p and xi documented "
     "for it (Schureman pages 25 to 46); for compound tides it is the documented product of the factors of their constituents.",
     ["inputs", "configurations"], "every date within the bounds, the three formulae, the 75 constituents",
     "the tests evaluate one date", WF, [("Astronomic::f_*", "include/fes/angle/astronomic.hpp"), ("wave constructors", "include/fes/wave.hpp")],
     WV("h_wave_factor1", "h_wave_factor2", "h_wave_any_factor", "h_wave_factor_2mk6"), POLY + "; and any angles in their ranges, whatever the date", [REAL, LIBM, DIVZ])
prop("C08", "The phase argument of each constituent is the documented combination of angles",
     "For every date V and u of each of the 75 constituents are the documented integer combinations of the astronomical angles "
     "(with the additional term of L2 and M13), V + u is reported modulo a turn, and nothing remains of the previous date.",
     ["inputs", "configurations", "histories"], "every date within the bounds, the three formulae, the 75 constituents",
     "the tests set every angle to one degree, or zero, for each constituent", WF,
     [("Wave::nodal_g", "include/fes/wave.hpp"), ("Table::compute_nodal_corrections", "include/fes/wave/table.hpp")],
     WV("h_wave_args1", "h_wave_args2", "h_wave_args3", "h_wave_history", "h_wave_any_args", "h_wave_any_history"), POLY + "; and any angles in their ranges, whatever the date", [REAL, LIBM, DIVZ])
prop("C09", "Each constituent has its frequency, period, Doodson number and type",
     "The frequency of each constituent is the rate of its argument V for the published mean motions (Schureman, table 1), its "
     "period is a turn divided by that frequency, and its type, Doodson number and computation by admittance are those documented.",
     ["configurations"], "the 75 constituents", "the tests check two Doodson numbers and the frequency of a subset", WF,
     [("Wave::frequency", "include/fes/wave.hpp"), ("Wave::doodson_number", "src/library/wave.cpp")],
     WV("h_wave_constants"), "all constituents; Doodson numbers of 2MN6 and M8 excluded (no code for their digits)", [REAL])
prop("C10", "Names and identifiers of the constituents correspond one to one",
     "Every constituent has one name, listed in the order of the identifiers; a string designates a constituent if and only if "
     "it is its name up to the case of the letters, and any other string or identifier is refused.",
     ["inputs"], "all strings of 0 to 8 arbitrary bytes; all 256 identifiers", "the tests parse each name once",
     ["src/library/constituent.cpp", "include/fes/detail/wave/name.hpp", "include/fes/constituent.hpp"],
     [("constituents::parse, name, known", "src/library/constituent.cpp")],
     [T("waves", x) for x in hs("waves", "h_name_")], "strings of up to 8 bytes", [ALLOC])
prop("C11", "A wave table holds exactly the constituents it was built with",
     "A table built from a list of names or identifiers, in any order, gives exactly these constituents, in the order of their "
     "identifiers, by index, identifier, name and iteration, and refuses the others. A copy of a table has the same state and "
     "does not share it.",
     ["inputs", "configurations"], "complete tables and selections of 3 of the 75 constituents in every rotation; any tide, flags and dates for copies",
     "the tests build three tables", ["src/library/wave/table.cpp", "include/fes/wave/table.hpp", "src/library/constituent.cpp"],
     [("Table::Table, operator[], find, begin", "include/fes/wave/table.hpp"), ("wave_factory", "src/library/wave/table.cpp")],
     [T("waves", "h_table_complete"), T("waves", "h_table_selection"), T("waves", "h_table_copy", opts=AO)],
     "150 selections", [REAL, ALLOC])


# ----------------------------------------------------------------- prediction
TO = dict(AO, quo_fork=True)
TR = dict(TO, races=True, hwc="sym")
TF = ["include/fes/tide.hpp", "include/fes/abstract_tidal_model.hpp", "include/fes/wave/table.hpp", "src/library/wave/table.cpp",
      "include/fes/wave.hpp", "include/fes/settings.hpp"]
FAKE = "the tidal model is a stand-in that returns stored values (its interpolation is the subject of C21 and C26)"
TI = lambda *e, **k: [T("tide", x, opts=k.pop("opts", TO), **k) for x in e]
prop("C03", "Each point of a prediction has the value it has alone",
     "The tide, long-period tide and quality that evaluate_tide gives for a point are those of a prediction of this point alone, "
     "whatever the other points of the request, their order, the number of threads and their schedule. Arrays whose sizes differ "
     "are refused.",
     ["inputs", "configurations", "schedules"], "all dates, node values and latitudes; 3 points sharing dates and places, one possibly undefined; threads 0..3, three schedules",
     "the tests predict with one order and one number of threads", TF + ["include/fes/detail/thread.hpp", "include/fes/detail/broadcast.hpp"],
     [("evaluate_tide", "include/fes/tide.hpp"), ("parallel_for", "include/fes/detail/thread.hpp"), ("check_eigen_shape", "include/fes/detail/broadcast.hpp")],
     [T("tide", "h_tide_batch%d" % n, opts=dict(TR, thread_order=o), name="h_tide_batch%d:%s" % (n, o), cost=8,
        tier="quick" if o == "eager" or n == 2 else "thorough")
      for n in range(4) for o in ("eager", "reverse", "lazy") if n > 1 or o == "eager"] + TI("h_tide_shapes"),
     "3 points, dates within 14 days, time tolerance 0, 2 model constituents, Schureman order 1", [REAL, LIBM, DIVZ, ALLOC, FAKE])
prop("C12", "Minor constituents are inferred by the published admittance formulas",
     "Every inferred constituent has the tide given by the published linear combination of the major ones (spline or linear "
     "admittance, Munk and Cartwright), except those given by the model, which keep their own tide; the majors and all other "
     "constituents are left alone.",
     ["inputs", "configurations"], "any complex tide of the 75 constituents; each inferred constituent, and groups of them, given by the model",
     "the tests run the admittance on zero tides", TF, [("Table::admittance", "src/library/wave/table.cpp")],
     TI("h_admittance"), "tides in [-100,100]; 60 configurations of dynamic constituents", [REAL])
prop("C13", "Node factors and arguments are tabulated date by date",
     "compute_nodal_modulations gives for each date the node factors and arguments that a fresh table has at that date, whatever "
     "the other dates and the previous use of the table, and leaves the table unchanged.",
     ["inputs", "histories"], "every two dates and leap seconds within the bounds, three formulae, any previous state and tide of the table",
     "the tests tabulate one date", TF, [("Table::compute_nodal_modulations", "src/library/wave/table.cpp")],
     TI("h_tide_modulations", "h_tide_shapes"), "2 dates, 5 constituents; " + POLY, [REAL, LIBM, DIVZ])
prop("C14", "The long-period equilibrium tide is that of the Cartwright and Edden spectrum",
     "At every date and latitude the long-period equilibrium ocean tide is the sum of the published lines of the tide potential "
     "(106 of degree 2, 17 of degree 3) with the Love numbers documented, less the lines of the constituents that are dynamic.",
     ["inputs", "configurations"], "every date and latitude; no constituent dynamic, each alone, all the others, all together",
     "the tests evaluate one date and latitude", ["src/library/wave/long_period_equilibrium.cpp", "include/fes/wave/long_period_equilibrium.hpp"],
     [("LongPeriodEquilibrium::lpe_minus_n_waves", "src/library/wave/long_period_equilibrium.cpp")],
     TI("h_lpe_all", "h_lpe_none") + TI("h_lpe_dynamic", cost=9), POLY, [REAL, LIBM, DIVZ])
prop("C15", "The predicted tide is the sum of the harmonic terms of the constituents",
     "The tide is the sum over the dynamic and inferred constituents of f (Re cos(V+u) + Im sin(V+u)), the long-period species "
     "being summed apart with the equilibrium tide, which is added for ocean tides only. Where the model is undefined the tide is "
     "NaN and the long-period part is the equilibrium tide alone; the quality is that of the interpolation.",
     ["inputs", "configurations"], "all dates, latitudes and node values; ocean and radial tides; constituents excluded or declared dynamic; defined or not",
     "the tests compare a prediction with a stored one to a centimetre", TF, [("detail::evaluate_tide", "include/fes/tide.hpp")],
     TI("h_tide_sum_ocean", cost=8) + TI("h_tide_sum_radial", "h_tide_undefined_ocean", cost=6) + TI("h_tide_undefined_radial"),
     "11 model constituents; Schureman order 1; f, V+u and equilibrium tide as in C07, C08, C14; " + POLY, [REAL, LIBM, DIVZ, FAKE])
prop("C16", "The prediction uses the constituents of the model that are not excluded",
     "In the table used for a prediction a constituent is dynamic exactly when the model gives it and the settings do not exclude "
     "it, or when the model declares it dynamic; every other constituent keeps its computation by admittance.",
     ["configurations"], "the 75 constituents, given or not, excluded or not, declared dynamic or not", "the tests use one model without exclusions",
     TF, [("detail::build_wave_table", "include/fes/tide.hpp")], TI("h_tide_build", cost=5), "200 configurations of 3 constituents", [REAL, ALLOC])
prop("C33", "A predicted series is the harmonic sum of its constants, date by date",
     "tide_from_tide_series gives for each date the sum over the table of f (Re cos(V+u) + Im sin(V+u)) at that date, whatever the "
     "other dates and the previous state of the table, and leaves the table unchanged. Arguments of inconsistent sizes are refused.",
     ["inputs", "histories"], "every two dates and leap seconds, all constants and table states, three formulae, two tables",
     "the tests predict one series from its own analysis", TF, [("Table::tide_from_tide_series", "src/library/wave/table.cpp")],
     TI("h_tide_series", "h_tide_shapes"), "2 dates, 1 or 4 constituents; " + POLY, [REAL, LIBM, DIVZ])
prop("C34", "A mapped prediction gives the harmonic term of each constituent at each point",
     "tide_from_mapping gives, for each point and constituent, f (Re cos(V+u) + Im sin(V+u)) at the date requested, whatever the "
     "number of threads and their schedule, without races, and leaves the table unchanged. A wrong number of constituents is refused.",
     ["inputs", "configurations", "schedules"], "0 to 3 points, all constants and dates, threads 0..4, processors 0..4, three schedules",
     "the tests map one field with the default threads", TF + ["include/fes/detail/thread.hpp"], [("Table::tide_from_mapping", "src/library/wave/table.cpp")],
     [T("tide", "h_tide_mapping", opts=dict(TR, thread_order=o), name="h_tide_mapping:" + o, cost=5) for o in ("eager", "reverse", "lazy")] + TI("h_tide_shapes"),
     "0 to 3 points, 2 constituents; " + POLY, [REAL, LIBM, DIVZ, ALLOC])
prop("C36", "Cached angles are those of a date within the time tolerance",
     "The accelerator answers with the astronomical angles of a date it was asked for that differs from the requested one by at most "
     "the tolerance, however long the sequence of requests drifts. With a tolerance of zero they are the angles of the very date and "
     "leap seconds requested.",
     ["inputs", "histories"], "all sequences of three dates, all tolerances up to 1e6 s; all pairs of dates and leap seconds",
     "the tests use a tolerance of zero", ["include/fes/abstract_tidal_model.hpp", "src/library/angle/astronomic.cpp"],
     [("Accelerator::calculate_angle", "include/fes/abstract_tidal_model.hpp")], TI("h_acc_tolerance", "h_acc_exact"),
     "3 dates in [0, 4e9] s or at steps of at most 1.5e6 s", [REAL, LIBM, DIVZ])


# ------------------------------------------------------------------ finite elements, malformed states
TRI = dict(rem_fork=True, merge_fp=False)
COR = dict(TRI, big_alloc=True, malloc_cap=2600, enum_cap=2000)
LG = lambda *e, **k: [T("lgp", x, opts=TRI, **k) for x in e]
MOCK = "the mesh search and the test of the cached triangle are stand-ins that answer what the harness chooses (C47)"
LGF = ["include/fes/tidal_model/lgp.hpp"]
prop("C23", "A model only accepts fields of the size of its grid",
     "A tidal model accepts a constituent exactly when its number of values is that of the grid (or of the nodes of the finite "
     "elements), and a refused constituent leaves the model unchanged.",
     ["inputs", "configurations"], "field sizes 0..13, grids in both storage orders; LGP1 and LGP2, inconsistent codes",
     "the tests try one wrong size", ["include/fes/tidal_model/cartesian.hpp"] + LGF,
     [("Cartesian::add_constituent", "include/fes/tidal_model/cartesian.hpp"), ("LGP::add_constituent / check_codes", "include/fes/tidal_model/lgp.hpp")],
     CA("h_cart_add") + LG("h_lgp_refused"), "a grid of 3x2; meshes of 2 triangles", [REAL, ALLOC])
prop("C25", "A malformed serialized state is refused or yields a usable model",
     "Restoring an axis or a tidal model from a truncated state, or from a state one of whose length fields holds any other "
     "value, either raises a standard exception or yields an object whose parts agree, whose values are those of the state and "
     "whose use stays within its memory.",
     ["inputs", "crash_points"], "every truncation; every length field of the states of three models, every 64-bit value",
     "no test gives a malformed state", ["include/fes/tidal_model/cartesian.hpp", "src/library/axis.cpp", "src/library/mesh/index.cpp", "include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp"] + LGF,
     [("serialize", "include/fes/detail/serialize.hpp"), ("isviewstream", "include/fes/detail/isviewstream.hpp")],
     CA("h_cart_truncated") + AX("h_axis_truncated") + LG("h_lgp1_truncated", "h_lgp2_truncated", cost=5)
     + [T("cartesian", "h_cart_corrupted_" + w, opts=dict(COR, fptoi_window=[-1, 6]), cost=3) for w in ("small", "large")]
     + [T("axis", "h_axis_corrupted_" + w, opts=COR) for w in ("small", "large")]
     + [T("lgp", "h_lgp%d_corrupted_%s" % (n, w), opts=COR, cost=6) for n in (1, 2) for w in ("small", "large")]
     + [T("cartesian", "h_cart_corrupted_medium", opts=dict(COR, fptoi_window=[-1, 6]), tier="thorough", cost=6)]
     + [T("lgp", "h_lgp%d_corrupted_medium" % n, opts=COR, tier="thorough", cost=9) for n in (1, 2)],
     "one field changed at a time (lengths 64 to 300 in the thorough tier); allocations above 2600 bytes either fail or succeed",
     [REAL, MOCK])
prop("C26", "Finite-element interpolation reproduces the polynomials of its degree",
     "Inside a triangle the LGP1 model reproduces every field affine in the coordinates of the reference triangle and the LGP2 "
     "model every quadratic field, in single and double precision. The quality is kInterpolated.",
     ["inputs"], "all coefficients and positions of the two triangles, all values at the other nodes",
     "the tests interpolate stored fields", LGF + ["include/fes/geometry/triangle.hpp", "src/library/geometry/triangle.cpp"],
     [("LGP::interpolate / calculate_beta", "include/fes/tidal_model/lgp.hpp")],
     LG(*hs("lgp", "h_lgp\\d_basis")), "a mesh of two triangles, a permutation of the nodes; " + MOCK, [REAL, MOCK])
prop("C27", "Finite-element models extrapolate from a vertex and are NaN where undefined",
     "Outside the mesh the value is that of the vertex selected, within the maximum distance, with quality kExtrapolated1; where "
     "no triangle is selected every constituent is NaN and the quality is kUndefined. The answer does not depend on the positions "
     "asked before with the same accelerator.",
     ["inputs", "histories"], "all positions, vertices and distances; all sequences of three answers of the search",
     "the tests use one accelerator and one distance", LGF, [("LGP::interpolate / LGPAccelerator", "include/fes/tidal_model/lgp.hpp")],
     LG(*hs("lgp", "h_lgp\\d_(vertices|undefined|history)")), "a mesh of two triangles", [REAL, MOCK])
prop("C28", "A finite-element model survives its serialized state",
     "The LGP1 or LGP2 model restored from a serialized state has the same mesh, codes, tide type, maximum distance, constituents, "
     "values and dynamic constituents, and accepts further constituents. A truncated state is refused.",
     ["inputs", "configurations"], "all node values, 0 to 2 constituents, every truncation", "the tests restore one model",
     LGF + ["src/library/mesh/index.cpp", "include/fes/detail/serialize.hpp"], [("LGP::getstate / setstate", "include/fes/tidal_model/lgp.hpp")],
     LG(*hs("lgp", "h_lgp\\d_state")) + LG(*hs("lgp", "h_lgp\\d_truncated"), cost=5), "a mesh of two triangles", [REAL, MOCK, ALLOC])
prop("C29", "The reference coordinates of a triangle are those of the affine map",
     "The coordinates of a position in the reference right-angled triangle are those of the affine map that sends the three "
     "vertices to (0,0), (1,0) and (0,1), for either orientation and longitudes counted on any turn; they are (0,0) for a flat "
     "triangle. A position is recognised as a vertex exactly when it is one.",
     ["inputs"], "all triangles and positions", "the tests use one triangle",
     ["include/fes/geometry/triangle.hpp", "src/library/geometry/triangle.cpp"],
     [("Triangle::reference_right_angled / is_vertex", "src/library/geometry/triangle.cpp")],
     [T("triangle", x, opts=TRI, cost=4 if "inverse" in x else 1) for x in hs("triangle")], "symbolic triangles up to 20 degrees by 15 within the latitudes [-85, 85], 8 given triangles; vertices told apart at 0.01 degree", [REAL])


MA = lambda *e, **k: [T("math", x, opts=dict(merge_fp=False), **k) for x in e]
MQ = lambda *e, **k: [T("math", x, opts=dict(merge_fp=False, quo_fork=True, rem_fork=True), **k) for x in e]
prop("C30", "Angles are normalised into their interval, degree sines are exact",
     "normalize_angle returns the angle of [min, min + circle) congruent to its argument. The sine and cosine of degrees are those of "
     "the argument, exact at the multiples of 90 degrees; unit conversions and polynomial evaluation are the formulas documented.",
     ["inputs"], "all angles within 1e6, circles from 1e-3 to 1e4, arguments within 765 degrees",
     "the tests compare a few values", ["include/fes/detail/math.hpp"], [("normalize_angle / sincosd", "include/fes/detail/math.hpp")],
     MA("h_normalize", "h_normalize_360") + MQ("h_sincosd", "h_sincosd_exact", "h_units"),
     "sines: 90 k + r, |k| <= 8, |r| < 44.999", [REAL, LIBM])
prop("C31", "Positions are converted to Earth-centred coordinates on WGS84",
     "The Earth-centred, Earth-fixed coordinates of a geographic position are those of the point of the WGS84 ellipsoid with this "
     "geodetic latitude and longitude.",
     ["inputs"], "all latitudes, all longitudes within 315 degrees", "the tests convert one position",
     ["include/fes/geometry/point.hpp", "include/fes/geometry/ecef.hpp", "include/fes/detail/math.hpp"],
     [("Point::operator EarthCenteredEarthFixed", "include/fes/geometry/point.hpp")], MQ("h_ecef", "h_ecef_pole"),
     "angles within 0.001 degree of an odd multiple of 45 degrees excluded", [REAL, LIBM])
AN = lambda *e, **k: [T("analysis", x, opts=dict(merge_fp=False, rem_fork=True), **k) for x in e]
prop("C32", "Harmonic analysis gives the least-squares constants",
     "The constants returned make the residual of the heights orthogonal to every harmonic term f cos(V+u), f sin(V+u), so heights made "
     "of such terms give their constants back. If a height is NaN every constant is NaN, and arrays of inconsistent sizes are refused.",
     ["inputs", "configurations"], "all heights and constants, missing heights anywhere, all nodal factors for one constituent",
     "the tests analyse one series", ["src/library/wave/table.cpp"], [("Table::harmonic_analysis", "src/library/wave/table.cpp")],
     AN(*hs("analysis", "h_analysis")), "1 or 2 constituents, up to 6 dates, 3 given sets of arguments", [REAL])
prop("C35", "The constituents selected for an analysis are those the series resolves",
     "select_waves_for_analysis returns, once each, the names of the known constituents whose period is shorter than the given multiple "
     "of the length of the series.",
     ["inputs"], "all lengths up to 1e9 s and multiples up to 20", "the tests select for one length",
     ["src/library/wave/table.cpp", "include/fes/wave.hpp"], [("Table::select_waves_for_analysis", "src/library/wave/table.cpp")],
     AN("h_select_duration", cost=8) + AN("h_select_factor", cost=4), "periods from Schureman's table 1, told apart at 1e-6", [REAL])
prop("C47", "The mesh search selects a triangle covering the position, else the nearest",
     "Among the triangles near a position the search selects one that covers it, with the position itself. If none does, it selects the "
     "nearest with the projection of the position when the nearest vertex is within the distance requested, and nothing otherwise.",
     ["inputs", "configurations"], "every subset of covering triangles of the kind 'one', 'one and those after', all distances to the triangles and distances requested; positions at or near each vertex of three meshes, on either turn",
     "the tests use one mesh", ["src/library/mesh/index.cpp", "include/fes/mesh/index.hpp"], [("Index::search", "src/library/mesh/index.cpp")],
     [T("search", x, opts=dict(merge_fp=False, rem_fork=True), cost=3) for x in hs("search")],
     "meshes of 2, 3 and 8 triangles, given positions",
     ["Boost's predicates between a position and a triangle (covered_by, distance, closest_points) are stand-ins that answer any values; Boost's R*-tree is executed", REAL])


NOT_APPLICABLE = {}


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NOT_APPLICABLE[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason)


na("C48", "The Python module gives the results of the C++ library",
   "Every function and class of the Python module converts its arguments, calls the C++ function of the same name and returns its "
   "result; errors become Python exceptions.",
   ["inputs"], "all arguments of every function", "the Python tests need the interpreter and its numerical packages, and sample inputs",
   ["src/python/core/main.cpp", "src/python/core/tide.cpp", "src/python/core/settings.cpp"], [("bindings", "src/python/core/main.cpp")],
   "the behaviour is that of pybind11 templates over the CPython interpreter (object model, reference counts, import machinery): "
   "it is outside what symbolic execution of this repository's code can encode")
na("C49", "The Python package reads the NetCDF models and their configuration",
   "The models described by a configuration file are loaded from their NetCDF files with the values, axes, constituents and "
   "dynamic constituents that the files and the configuration give.",
   ["inputs"], "all configurations and files", "the Python tests load the files of the repository",
   ["src/python/pyfes/config.py"], [("config", "src/python/pyfes/config.py")],
   "Python code whose work is done by the netCDF4, numpy and yaml packages, none of which is available or encodable here")

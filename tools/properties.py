#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that both stay in step. Run by hand after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
                     "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append((d, technique, note))


SAMPLED = ("Exploration: no counterexample among the generated cases (counts in the evidence file). ")
TOL = "Numbers are compared within a rounding-error bound stated in DESIGN.md. "

prop("K01", "Elliptic anomaly conversions solve Kepler's equation and invert each other",
     "For every eccentricity in [0, 1) and every angle, converting mean to eccentric anomaly returns, in [-pi, pi], the "
     "solution of Kepler's equation M = E - e sin E modulo a full turn; converting between mean, eccentric and true "
     "anomaly is the geometric relation of the ellipse and every conversion is undone by its inverse modulo a full turn. "
     "An eccentricity outside [0, 1) yields NaN, never a number.",
     ["inputs"], "every eccentricity from 0 to 1 - 1e-9, out-of-range and non finite ones, every angle including many turns, apsides and tiny values",
     "The tests round-trip some hundred thousand random pairs through the two directions, which a matched pair of wrong formulas also satisfies, and never compare with an independent solution or look at e near 1.",
     ["include/kep3/core_astro/convert_anomalies.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
     [("m2e, e2m, e2f, f2e, m2f, f2m", "include/kep3/core_astro/convert_anomalies.hpp"), ("kepE and derivatives", "include/kep3/core_astro/kepler_equations.hpp")],
     ["the returned anomalies"], "property-based testing against a quad-precision Kepler solver and geometric relations",
     SAMPLED + TOL + "Trusts libquadmath.")
prop("K02", "Hyperbolic and Gudermannian anomaly conversions are exact and invertible",
     "For every eccentricity above 1, converting mean to hyperbolic anomaly solves N = e sinh H - H, and the conversions "
     "between true anomaly, hyperbolic anomaly, mean anomaly and Gudermannian are the geometric relations of the hyperbola, "
     "each undone by its inverse for every true anomaly inside the asymptotes. An eccentricity not above 1 yields NaN.",
     ["inputs"], "every eccentricity from 1 + 1e-9 up, mean anomalies of any size and both signs, true anomalies up to the asymptote",
     "The tests only round-trip random samples in a narrow range; large mean anomalies, near-parabolic eccentricities and both signs near the asymptote are not reached.",
     ["include/kep3/core_astro/convert_anomalies.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
     [("n2h, h2n, h2f, f2h, n2f, f2n, zeta2f, f2zeta", "include/kep3/core_astro/convert_anomalies.hpp")],
     ["the returned anomalies"], "property-based testing against a quad-precision solver and geometric relations", SAMPLED + TOL)
prop("K03", "Cartesian states and classical orbital elements describe the same orbit",
     "For every non-degenerate state, the six classical elements returned are those of its osculating conic (a > 0 for "
     "ellipses, a < 0 for hyperbolas, angles in [0, 2 pi), inclination in [0, pi]), and turning elements into a state gives "
     "the position and velocity they define; composing the two in either order is the identity. No component is ever NaN for a valid state, "
     "and elements that no orbit has (sign of a against e, anomaly beyond the asymptote) are rejected with an error.",
     ["inputs"], "every conic but the parabola, every inclination away from the equator, apsides and axis-aligned states, all units",
     "The tests round-trip random states and a few fixed ones; apsides and axis-aligned states, where cosines round past one, and wrong quadrants that both directions share are not sampled.",
     ["src/core_astro/ic2par2ic.cpp", "include/kep3/core_astro/ic2par2ic.hpp"],
     [("ic2par", "src/core_astro/ic2par2ic.cpp"), ("par2ic", "src/core_astro/ic2par2ic.cpp")],
     ["the returned state or elements, or the exception"], "property-based testing against quad-precision orbital elements", SAMPLED + TOL)
prop("K04", "Cartesian states and modified equinoctial elements describe the same orbit",
     "For every state that is regular for the chosen (direct or retrograde) set, the modified equinoctial elements returned "
     "are those the set defines, and turning them back gives the state; both compose to the identity for circular, "
     "equatorial, elliptic and hyperbolic orbits alike.",
     ["inputs"], "every conic, circular and equatorial orbits, inclinations up to those singular for the set, both sets, all units",
     "The tests round-trip random states, so an error shared by the two directions or one specific to the retrograde set, circular or equatorial orbits goes unnoticed.",
     ["src/core_astro/ic2eq2ic.cpp"], [("ic2eq", "src/core_astro/ic2eq2ic.cpp"), ("eq2ic", "src/core_astro/ic2eq2ic.cpp")],
     ["the returned state or elements"], "property-based testing against quad-precision equinoctial elements", SAMPLED + TOL)
prop("K05", "Classical and equinoctial elements convert into each other consistently",
     "Converting classical elements to modified equinoctial ones and back gives the same orbit and point on it, in the direct "
     "and in the retrograde set, for ellipses and hyperbolas; and converting directly agrees with going through the Cartesian state.",
     ["inputs"], "every eccentricity but 1, every inclination regular for the set, every angle",
     "The tests only round-trip random samples of one direction composed with the other.",
     ["src/core_astro/eq2par2eq.cpp"], [("par2eq", "src/core_astro/eq2par2eq.cpp"), ("eq2par", "src/core_astro/eq2par2eq.cpp")],
     ["the returned elements"], "property-based testing: definition, round trips and commuting diagrams", SAMPLED + TOL)
prop("K06", "Keplerian propagation ends where two-body motion ends",
     "For every non-degenerate initial state, gravitational parameter and time of flight, positive, negative or zero, the "
     "propagated state is the solution of the two-body problem, whatever the conic and the number of revolutions. Energy, angular momentum and eccentricity vector are conserved.",
     ["inputs"], "ellipses and hyperbolas with eccentricity within 1e-2 of 1 up to 8, up to 20 revolutions, both time directions, all units",
     "The tests compare the propagators of the library with each other on random samples in non-dimensional units; they share the anomaly solvers and miss long arcs, other units and special geometries.",
     ["src/core_astro/propagate_lagrangian.cpp", "include/kep3/core_astro/propagate_lagrangian.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
     [("propagate_lagrangian", "src/core_astro/propagate_lagrangian.cpp")], ["final position and velocity"],
     "differential property-based testing against a quad-precision propagator; invariants", SAMPLED + TOL + "The bound is 16 ulp through the reference state transition matrix.")
prop("K07", "All propagators agree; propagation is a reversible flow in any units and frame",
     "Propagating by t1 then t2 is propagating by t1 + t2, and by -t undoes t; rotating, reflecting or changing units before "
     "propagating is the same as doing it after. The universal-variable and the element-based propagators and the vectorised one give the same states as the default one.",
     ["inputs", "histories"], "any conic, pairs of durations of both signs, rotations, reflections and units of any scale",
     "The tests use non-dimensional units and one duration at a time; group properties over arbitrary sequences and scales are quantified over all inputs.",
     ["src/core_astro/propagate_lagrangian.cpp"],
     [("propagate_lagrangian, propagate_lagrangian_u, propagate_keplerian, propagate_lagrangian_v", "src/core_astro/propagate_lagrangian.cpp")],
     ["final position and velocity of each propagator"], "metamorphic and differential property-based testing", SAMPLED + TOL)
prop("K08", "The state transition matrix is the derivative of the propagated state",
     "The state transition matrix returned with a propagated state is the derivative of the final state with respect to the "
     "initial one, whichever of the available algorithms computes it; it is the identity at zero time, symplectic, and composes along the orbit. Asking for it does not change the propagated state.",
     ["inputs"], "any conic, both time directions, several revolutions, all units",
     "The tests compare with finite differences at loose tolerance on a handful of states in non-dimensional units.",
     ["src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp"],
     [("stm_lagrangian, stm_reynolds", "src/core_astro/stm.cpp"), ("propagate_lagrangian with stm", "src/core_astro/propagate_lagrangian.cpp")],
     ["the 36 entries of the matrix"], "property-based testing against a quad-precision variational reference; symplecticity", SAMPLED + TOL)
prop("K09", "Every Lambert solution flies the requested transfer",
     "For every solution returned by the Lambert solver, starting at the first position with the returned departure velocity "
     "and flying for the time of flight ends at the second position with the returned arrival velocity, after the number of "
     "complete revolutions the solution is listed under and in the requested (counter)clockwise sense.",
     ["inputs"], "any two non-aligned positions, times from nearly instantaneous to many periods, both senses, up to several revolutions, all units",
     "The tests propagate random solutions and check the final position only; velocities, revolution numbers and the sense of motion, near-180 degree and near-0 degree geometries are not checked.",
     ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"],
     [("constructor, dTdx, householder, x2tof", "src/lambert_problem.cpp")], ["v0, v1, Nmax of the solved problem"],
     "property-based testing with an independent quad-precision propagation of every solution", SAMPLED + TOL)
prop("K10", "The Lambert solver finds all solutions, once each, in a fixed order",
     "For a requested maximum number of revolutions the solver returns exactly one direct solution plus, for every number of "
     "revolutions that the time of flight allows, the two existing distinct ones, in order; any ballistic orbit joining the "
     "two positions in the time is among them. Reversing time, reflecting, rotating or rescaling the problem gives the corresponding solutions.",
     ["inputs"], "problems built from generated orbits of every conic with up to several revolutions, and random ones near the minimum time of each revolution count",
     "The tests never check completeness: no test knows how many solutions exist; only generation from known orbits and a reference minimum-time curve does.",
     ["src/lambert_problem.cpp"], [("computation of the number of revolutions, Halley search of the minimum time", "src/lambert_problem.cpp")],
     ["v0, v1, x, iters, Nmax"], "property-based testing against a quad-precision time-of-flight model; metamorphic relations", SAMPLED + TOL + "Times within 1e-6 of a minimum time are not decided. Transfer angles closer than 1e-2 rad to 0 or a full turn are not generated.")
prop("K11", "Lambert problems without a solution are rejected; a solved one is stored whole",
     "A non-positive time of flight or gravitational parameter and geometries without a defined transfer plane raise an error instead of "
     "returning numbers; a valid problem never does. A solved problem reports the data it was given and survives being saved and loaded unchanged.",
     ["inputs"], "valid problems and every single way of making them invalid, including positions that are parallel, opposite or equal up to rounding",
     "The tests construct a couple of invalid problems and serialise one.",
     ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"], [("checks of the constructor", "src/lambert_problem.cpp"), ("serialize", "include/kep3/lambert_problem.hpp")],
     ["the exception, the getters, the loaded object"], "property-based testing of rejection and serialisation round trips", SAMPLED)
prop("K12", "The Sims-Flanagan mismatch is the gap left by the impulsive leg model",
     "The mismatch constraints of a low-thrust leg equal the gap in position, velocity and mass between the forward propagation "
     "from the departure and the backward propagation from the arrival of the impulsive model (equal segments, impulse at mid segment, "
     "mass from the rocket equation), for any throttles, cut and number of segments. It vanishes for legs that fly such a trajectory.",
     ["inputs"], "1 to 40 segments, any cut in [0, 1], any throttles including zero and full, all units, long and short arcs",
     "The tests check one fixed leg from another tool, the ballistic case and one optimisation; the indexing of throttles and masses for arbitrary cuts and segment numbers is not covered.",
     ["src/leg/sims_flanagan.cpp", "include/kep3/leg/sims_flanagan.hpp"], [("compute_mismatch_constraints", "src/leg/sims_flanagan.cpp")],
     ["the seven mismatch constraints"], "differential property-based testing against a quad-precision model of the leg", SAMPLED + TOL)
prop("K13", "Analytic gradients of the leg mismatch are its true derivatives",
     "The gradients of the mismatch with respect to the departure and arrival states, all the throttles and the time of flight equal "
     "the derivatives of the mismatch, for any leg; they are finite numbers even where throttles are zero.",
     ["inputs"], "as for the mismatch: any number of segments, cut, throttles including zero",
     "The tests compare with numerical differences at 1e-8 for a few fixed throttle values and never at zero throttle.",
     ["src/leg/sims_flanagan.cpp"], [("compute_mc_grad, gradients_multiple_impulses, gradients_fwd/bck", "src/leg/sims_flanagan.cpp")],
     ["the three returned matrices"], "property-based testing against quad-precision finite differences of the leg model", SAMPLED + TOL)
prop("K14", "Throttle constraints and gradient say how far each throttle is from its bound",
     "For any throttles, the throttle constraint of each segment is its squared norm minus one, in segment order, and the returned "
     "gradient is exactly its derivative: twice the throttles, block by block, zero elsewhere.",
     ["inputs"], "1 to 40 segments, any finite throttles",
     "The tests check one vector of throttles.",
     ["src/leg/sims_flanagan.cpp"], [("compute_throttle_constraints, compute_tc_grad", "src/leg/sims_flanagan.cpp")],
     ["the constraints and the matrix"], "property-based testing against the definition", SAMPLED + TOL)
prop("K15", "A leg behaves as its current values say, whatever the calls that led to them",
     "After any sequence of constructions, setter calls (accepted or rejected), copies and save/load cycles, a leg is indistinguishable "
     "from one built afresh from its current values: same getters, segment split, mismatch, constraints and gradients. "
     "A call with invalid values raises an error and leaves the leg as it was.",
     ["histories", "inputs"], "random sequences of all the setters with valid and invalid values, checked after each step",
     "The tests call each setter once in a fixed order on a fresh object; stale derived quantities need particular sequences.",
     ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp", "include/kep3/leg/sims_flanagan.hpp"],
     [("setters", "src/leg/sims_flanagan.cpp"), ("_sanity_checks", "src/leg/sf_checks.cpp"), ("serialize", "include/kep3/leg/sims_flanagan.hpp")],
     ["getters and results after each step"], "stateful model-based property testing", SAMPLED,
     state=[("number of forward and backward segments", "must follow the throttles and the cut", "include/kep3/leg/sims_flanagan.hpp")])

SHIM = "The part of kep3 under test is compiled against stand-ins for headers that are not installed here (harness/shim). "
prop("K16", "Calendar dates, ISO strings and Julian day counts name the same instant",
     "An epoch built from a calendar date (components past their range carry over), from an ISO string cropped at any field, "
     "or from a Julian day count in any of the three conventions is the instant that the proleptic Gregorian calendar gives, to the microsecond; printing and reading "
     "an epoch back, as a string or a day count, is the identity, whatever the local time zone. Impossible years, months or days and malformed strings raise an error.",
     ["inputs"], "every date of the years 1 to 9999 with leap years and centuries, every crop, day counts of any size, impossible components of any size",
     "The tests build two dozen dates and check only a couple of them; those of the library's epoch are not even built here.",
     ["src/epoch.cpp", "include/kep3/epoch.hpp", "include/kep3/core_astro/convert_julian_dates.hpp"],
     [("make_tp, string constructor, tp_from_days, as_utc_string", "src/epoch.cpp"), ("jd, mjd, mjd2000", "include/kep3/epoch.hpp")],
     ["time point, day counts, strings, exceptions"], "property-based testing against an independent calendar; round trips", SAMPLED + SHIM + "A day count is compared to the microsecond it is stored with.")
prop("K17", "Epoch arithmetic and order are exact to the microsecond",
     "Epochs are totally ordered as the instants they name, their difference is the exact time between them, and any sequence of "
     "additions and subtractions of durations, in any unit, with saves, loads and conversions in between, ends at the instant obtained by integer arithmetic in microseconds. "
     "An epoch built from a duration is that long after MJD2000.",
     ["histories", "inputs"], "random sequences of additions, subtractions, conversions, archives; pairs of instants equal or a microsecond apart to millennia apart",
     "The tests do a handful of additions and comparisons.",
     ["include/kep3/epoch.hpp", "src/epoch.cpp"],
     [("operators, days, sec, as_sec, duration constructor, save/load", "include/kep3/epoch.hpp")],
     ["the epoch after each step"], "stateful model-based property testing", SAMPLED + SHIM,
     state=[("time point", "microseconds since 1970 in 64 bits", "include/kep3/epoch.hpp")])
prop("K18", "Fly-by constraints, cost and outgoing velocity obey hyperbolic deflection",
     "For any incoming and outgoing relative velocities, the fly-by constraints are the difference of squared speeds and the angle in excess of the largest "
     "deflection at the safe radius, and the cost is the smallest velocity change that closes the fly-by; never NaN. The outgoing velocity of an unpowered fly-by keeps the relative speed, turns by the deflection of its radius in the "
     "plane of its angle, and satisfies the constraints exactly at that radius; giving a planet is giving its parameter and safe radius.",
     ["inputs"], "any directions including parallel and opposite ones, any ratio of speeds, deflections from none to half a turn, all planes",
     "The tests check seven fixed cases.",
     ["src/core_astro/flyby.cpp"], [("fb_con, fb_dv, fb_vout", "src/core_astro/flyby.cpp")], ["the returned numbers"],
     "property-based testing against quad-precision hyperbolic geometry; consistency between the functions", SAMPLED + TOL + SHIM)
prop("K19", "A planet reports what its user-defined body declares, or the stated default",
     "For every user-defined body, a planet returns the body's own ephemerides, and every optional quantity it declares; undeclared ones have the stated default: -1, empty text, the class name, "
     "vectorised ephemerides one by one in order, period and elements of every type from position, velocity and central parameter (or a not-implemented error without it, or a refusal of mean anomalies and periods for hyperbolas). "
     "Asking at an epoch is asking at its MJD2000; copies are independent and saving and loading changes nothing.",
     ["inputs", "configurations"], "bodies declaring each combination of optional methods used, any conic, any time, lists of any length, copies, moves, archives",
     "The tests declare a few bodies with constant answers and check the number of them.",
     ["include/kep3/planet.hpp", "src/planet.cpp"],
     [("planet_iface_impl, default_eph_vectorization", "include/kep3/planet.hpp"), ("period_from_energy, elements_from_posvel", "src/planet.cpp")],
     ["every method of the planet"], "property-based testing over configurations of user bodies; quad-precision elements", SAMPLED + SHIM + "The wrapper class itself (tanuki) is a stand-in; the repository's planet tests pass against it.")
prop("K20", "A Keplerian planet moves as the two-body problem from its reference epoch",
     "A Keplerian planet built from a state, or from elements of any type, has that state at its reference epoch and the two-body motion from there at any other time; "
     "its elements of every type stand for that state, its period is Kepler's (NaN for hyperbolas) and the values given to it are reported back, also after saving and loading. Elements that no orbit has are refused.",
     ["inputs"], "any conic, four types of elements, any reference epoch, times before and after, all units",
     "The tests build a handful of planets and evaluate two dates.",
     ["src/udpla/keplerian.cpp", "include/kep3/udpla/keplerian.hpp"],
     [("constructors, eph, elements, period", "src/udpla/keplerian.cpp"), ("serialize", "include/kep3/udpla/keplerian.hpp")],
     ["ephemerides, elements, period, getters"], "property-based testing against quad-precision two-body motion", SAMPLED + TOL + SHIM)
prop("K21", "Low-precision planets follow the JPL approximate elements in 1800-2050",
     "For each of the eight planets, whatever the case of its name, and any date between 1800 and 2050, position and velocity are those of the JPL approximate elements at that date, and the elements of every type stand for the same state. "
     "Dates outside and unknown names raise an error; physical constants and the safe radius are those of the planet.",
     ["inputs"], "all eight planets, any date in the range, dates on both sides outside it",
     "The tests compare each planet at one date with a tolerance of 1-5 %, which hides wrong rates and constants.",
     ["src/udpla/jpl_lp.cpp", "include/kep3/udpla/jpl_lp.hpp"], [("table of elements, _f_elements", "src/udpla/jpl_lp.cpp")],
     ["ephemerides, elements, getters"], "differential property-based testing against an independent evaluation of the JPL table", SAMPLED + TOL + SHIM)

HEY = ("heyoka is not installed here: its Taylor integrators and compiled functions are stand-ins (harness/shim/heyoka) that interpret the expressions kep3 builds; "
       "the repository's own tests of these parts pass against them. ")
prop("K22", "Cached Taylor integrators fly the documented dynamics at the asked tolerance",
     "For any state, thrust, parameters and duration of either sign, the integrators handed out for the Stark problem (constant inertial thrust with mass flow) and the circular restricted three-body problem reach the state those equations of motion prescribe, "
     "the variational ones also its derivatives by the state and the thrust, to their tolerance. One integrator is kept per tolerance, as new whatever its copies went through, and the cache sizes count them.",
     ["inputs", "histories"], "conics of any kind and orientation in any units, thrust from none to a fifth of gravity, mass ratios, both senses of time, tolerances 1e-16 to 1e-12; sequences of requests and uses of copies",
     "The tests integrate one state each and compare a few numbers; they are not even built here.",
     ["src/ta/stark.cpp", "src/ta/cr3bp.cpp"],
     [("stark_dyn, get_ta_stark, get_ta_stark_var", "src/ta/stark.cpp"), ("cr3bp_dyn, get_ta_cr3bp, get_ta_cr3bp_var", "src/ta/cr3bp.cpp")],
     ["states after a propagation, size of the caches"], "property-based testing against a quad-precision Taylor integration; model-based for the caches", SAMPLED + TOL + HEY,
     state=[("ta_stark_cache and the others", "one integrator per tolerance, kept for the life of the process", "src/ta/stark.cpp")])
prop("K23", "A Stark problem flies its own parameters, and returns exact derivatives",
     "Propagating a state under constant thrust gives the state that the equations of motion prescribe, propagating back returns to the start, and the derivatives returned are those of the end by the initial state and by the thrust. "
     "Results depend only on the current parameters: any history of setters, flights, copies, saves and loads gives those of a new problem with the same values. A zero mass is refused.",
     ["inputs", "histories"], "conics of any kind in any units, thrust from none to a fifth of gravity, both senses of time; random histories of calls",
     "The tests fly one state and compare the derivatives at one point.",
     ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"],
     [("propagate, propagate_var, set_mu, set_veff, set_tol", "src/stark_problem.cpp"), ("serialize", "include/kep3/stark_problem.hpp")],
     ["returned states and derivatives, getters"], "property-based testing against a quad-precision Taylor integration; stateful comparison with fresh objects", SAMPLED + TOL + HEY)
prop("K24", "The high-fidelity leg's mismatch and history are those of continuous thrust",
     "The mismatch constraints of a high-fidelity leg are the gap at the cut between flying the segments forward from departure and backward from arrival, each under its constant inertial thrust with mass flow; a flown trajectory cut anywhere closes. "
     "The state history samples that same flight uniformly from one end of each segment to the other, and the state derivative is the equation of motion.",
     ["inputs"], "1 to 6 segments, every cut, any throttles, durations up to most of a revolution, any units and tolerance",
     "The tests check a few legs against numbers of another program; they are not built here.",
     ["src/leg/sims_flanagan_hf.cpp"],
     [("compute_mismatch_constraints, compute_constraints", "src/leg/sims_flanagan_hf.cpp"), ("get_state_history, get_state_derivative", "src/leg/sims_flanagan_hf.cpp")],
     ["constraints, histories, derivative"], "property-based testing against a quad-precision Taylor integration of the segments", SAMPLED + TOL + HEY)
prop("K25", "The high-fidelity leg's gradients are the exact derivatives of its constraints",
     "The gradients returned for the mismatch (by the initial state, the final state, and the throttles and time of flight) and for the throttle constraints are the partial derivatives of those constraints, for every number of segments and every cut; "
     "entries of segments on the other side of the cut are those of the model too.",
     ["inputs"], "1 to 5 segments, every cut, throttles of any direction and size but zero, any units",
     "The tests compare a few legs with numerical differences at a tolerance of 1e-8 or coarser, at unit thrust.",
     ["src/leg/sims_flanagan_hf.cpp"],
     [("compute_mc_grad, compute_all_gradients, get_relevant_gradients, compute_tc_grad", "src/leg/sims_flanagan_hf.cpp")],
     ["returned gradients"], "property-based testing against finite differences of a quad-precision model", SAMPLED + TOL + HEY)
prop("K26", "A high-fidelity leg's results depend only on its values, which stay valid",
     "After any history of setters, constructions, results, copies, saves and loads, the getters return the last accepted values and constraints, gradients, histories and printed form are exactly those of a new leg built from them. "
     "Invalid values (wrong sizes, negative or out of range) are refused with the documented error and change nothing.",
     ["histories"], "random histories of up to twelve calls with valid and invalid values, default leg included",
     "The tests set values once on a fresh leg, and never compute with a leg after setting it.",
     ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"],
     [("setters, set, constructors", "src/leg/sims_flanagan_hf.cpp"), ("serialize", "include/kep3/leg/sims_flanagan_hf.hpp")],
     ["getters, results, errors"], "stateful model-based property testing against fresh legs", SAMPLED + HEY,
     state=[("m_tas, m_tas_var", "integrators holding copies of mu, veff and tolerance", "include/kep3/leg/sims_flanagan_hf.hpp")])

prop("K27", "Analytic planetary ephemerides are the series of the theory, cut as asked",
     "For each planet of the VSOP2013 theory (whatever the case of its name), any truncation threshold and any date, position and velocity are those of the theory truncated at that threshold, at that instant, in SI units. "
     "Unknown names and invalid thresholds are refused; name and printed form tell planet and threshold. Copies, archives and planets built from an object give identical ephemerides whatever happens to the original.",
     ["inputs", "histories"], "the nine bodies, several thresholds, dates within five centuries of 2000; histories of copies, moves, archives and planets",
     "The tests compare a few bodies at two dates; they are not even built here.",
     ["src/udpla/vsop2013.cpp", "include/kep3/udpla/vsop2013.hpp"],
     [("constructor, eph, cached compiled functions", "src/udpla/vsop2013.cpp")],
     ["ephemerides, names, errors"], "property-based testing against an independent evaluation; stateful comparison for object histories",
     SAMPLED + TOL + HEY + "The series themselves (data of heyoka) are stood in for by mean Keplerian motion plus a term that depends on the threshold.",
     state=[("cache of compiled functions", "one per planet and threshold, shared by all objects", "src/udpla/vsop2013.cpp")])
prop("K28", "Objects and caches may be used from several threads at once",
     "Threads that build and use their own objects (planets, legs, Stark problems, transfers, epochs) or read a shared constant one, all at the same time, get exactly the results each operation gives alone, without data races or deadlocks. "
     "Process-wide caches (integrators per tolerance, compiled ephemerides) filled concurrently hold one entry per key afterwards.",
     ["schedules"], "2 to 6 threads started together, each a random program over the whole interface, keys shared and new",
     "No test starts a thread; a race shows only under particular interleavings.",
     ["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/udpla/vsop2013.cpp"],
     [("mutexes around the integrator caches", "src/ta/stark.cpp"), ("mutex of the ephemerides cache", "src/udpla/vsop2013.cpp")],
     ["results against those of the same program run alone, reports of the thread sanitizer"],
     "randomised concurrent programs under ThreadSanitizer, against sequential results",
     "Exploration: no race among the generated programs; ThreadSanitizer flags unordered accesses even when the schedule that ran was harmless. " + HEY)
prop("K29", "No call corrupts memory or has undefined behaviour, whatever its arguments",
     "Every public call either returns or throws a standard exception for any arguments (zero, negative, huge, infinite or not a number included) and after any history of calls: no access outside an object, no use of freed memory, no overflow or conversion the language leaves undefined, no endless loop.",
     ["inputs", "histories"], "all generators of the other properties, and arbitrary bit patterns as numbers, sizes and dates in every call of the core library",
     "Tests run without sanitizers on meaningful arguments, where out-of-bounds reads and undefined conversions pass unnoticed.",
     ["src/leg/sims_flanagan.cpp", "src/leg/sims_flanagan_hf.cpp", "src/lambert_problem.cpp", "src/epoch.cpp", "src/planet.cpp", "src/core_astro/propagate_lagrangian.cpp"],
     [("sanity checks of the constructors and setters", "src/leg/sf_checks.cpp"), ("conversion of days to time points", "src/epoch.cpp")],
     ["crashes and reports of the sanitizers"], "fuzzing of every generator of the harness under AddressSanitizer and UndefinedBehaviorSanitizer",
     "Exploration: no report among the generated cases. " + HEY)


PYK = ("The package runs from the working tree's Python files and an extension built from its bindings against a stand-in for pybind11 "
       "(not installed here); the parts of pybind11 itself are not under test. ")
prop("K30", "Python functions return exactly what the C++ library returns",
     "Every function of pykep (anomaly conversions and their vectorised forms, element conversions, propagation, flybys, Stark and CR3BP integrators, constants) returns what the library's own function gives for the same arguments, in the documented shapes and types. "
     "Arrays of any layout, lists and tuples are taken alike, arguments are never changed, and invalid ones raise the documented exception.",
     ["inputs"], "scalars and arrays of any size, stride and order, ellipses and hyperbolas, any units",
     "The tests of pykep compare a few values, and none is run here.",
     ["pykep/core.cpp", "pykep/__init__.py", "pykep/ta/__init__.py"],
     [("bindings of functions and constants", "pykep/core.cpp")],
     ["values, shapes, exceptions"], "differential property testing of the bindings against direct calls of the library", SAMPLED + PYK + HEY)
prop("K31", "Python objects compute, copy and pickle exactly as the C++ ones",
     "Stark problems, legs and Lambert problems built from Python hold what they were given (by position, by keyword, by default), return what the library returns for it, in the documented shapes, and setters take effect or refuse as in the library. "
     "Copies, deep copies and pickles are equal and independent of the original.",
     ["inputs", "histories"], "any legs, Stark and Lambert problems, histories of setters, copies and pickles",
     "The tests of pykep check one leg and one Lambert problem.",
     ["pykep/core.cpp", "pykep/common_utils.hpp"],
     [("bindings of legs and of the Lambert problem", "pykep/core.cpp")],
     ["getters, results, exceptions"], "stateful differential property testing against direct calls of the library", SAMPLED + PYK)
prop("K32", "Python epochs are the calendar's",
     "An epoch built in Python from a date (MJD2000, MJD, JD), a datetime or an ISO string, in whole or in part, is that instant to the microsecond; it reads back as the same dates and the same text, differences and sums with days and timedeltas are those of the calendar, and comparisons follow time. "
     "Copies and pickles are equal; malformed texts, impossible dates and wrong types are refused.",
     ["inputs", "histories"], "any instant of the calendar of datetime and far beyond it, every form of construction",
     "The tests of pykep check a handful of dates.",
     ["pykep/core.cpp"],
     [("epoch bindings", "pykep/core.cpp")],
     ["dates, texts, differences"], "model-based property testing against Python's calendar", SAMPLED + PYK)
prop("K33", "Python planets give what their udpla gives or what the library computes from it",
     "A planet made of any Python or C++ udpla returns that object's ephemerides, name, gravity parameters and radii, and where it lacks one, the documented default or error; vectorised ephemerides, period and elements are those computed from its states. "
     "Malformed udplas raise an error and never misread memory; extract, copies and pickles keep the object and its state.",
     ["inputs", "histories"], "udplas with any subset of methods, well and ill behaved; every udpla of the library",
     "The tests of pykep use two or three fixed udplas that behave.",
     ["pykep/python_udpla.cpp", "pykep/expose_udplas.cpp", "pykep/core.cpp", "pykep/_patch_planet.py", "pykep/utils/_planet_to_keplerian.py"],
     [("python_udpla", "pykep/python_udpla.cpp"), ("bindings of planet and udplas", "pykep/core.cpp")],
     ["ephemerides, properties, exceptions"], "model-based property testing with generated udplas", SAMPLED + PYK)
prop("K34", "Gravity-assist problems cost what the encoded trajectory costs",
     "The fitness of a multiple gravity assist chromosome is the velocity change of the trajectory it encodes (Lambert arcs between the planets' ephemerides, powered flybys, launch and arrival options), in each time encoding; conversions between encodings describe the same dates. "
     "Bounds contain exactly the admissible chromosomes, the spacecraft made of a chromosome flies that trajectory, and invalid problems are refused.",
     ["inputs"], "sequences of two to six bodies, all encodings and launch and arrival options, any admissible chromosome",
     "The tests of pykep build problems but check two costs.",
     ["pykep/trajopt/_mga.py", "pykep/trajopt/gym/_cassini_mga.py"],
     [("fitness, _compute_dvs, to_planet, encodings", "pykep/trajopt/_mga.py")],
     ["fitness, bounds, ephemerides of the spacecraft"], "property-based testing against an independent model of the trajectory", SAMPLED + PYK)
prop("K35", "Low-thrust problems cost and constrain the transfer the chromosome describes",
     "Fitness of the direct methods is the scaled final mass, and the constraints are the mismatches and throttle constraints of the leg between the two bodies' states at the encoded dates; the gradient is the derivative of the fitness. "
     "Bounds, sparsity and printed report agree with the problem, and evaluating it changes nothing.",
     ["inputs"], "any bodies, dates, segments, cuts, units and chromosomes within the bounds, with and without gradient",
     "The tests of pykep check one chromosome.",
     ["pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"],
     [("fitness, gradient", "pykep/trajopt/_direct_pl2pl.py"), ("fitness, gradient", "pykep/trajopt/_direct_point2point.py")],
     ["fitness, gradients"], "property-based testing against a model built on the library's leg, and finite differences", SAMPLED + PYK)
prop("K36", "Planets from two-line elements and SPICE kernels relay those packages",
     "Planets made of two-line elements or SPICE kernels give the states of those theories at the asked epoch, scalar or vectorised, in SI units and the asked frame and observer; their properties are those given. "
     "Errors of the underlying package and malformed elements are reported; the SPICE utilities list and load what the kernels hold.",
     ["inputs"], "any two-line elements, bodies, observers, frames, dates",
     "The tests of pykep check one satellite and one body.",
     ["pykep/udpla/_tle.py", "pykep/udpla/_spice.py", "pykep/utils/_spice_utils.py"],
     [("tle", "pykep/udpla/_tle.py"), ("spice", "pykep/udpla/_spice.py")],
     ["ephemerides, exceptions"], "property-based testing against a model over stand-ins of the packages",
     SAMPLED + PYK + "spiceypy and sgp4 are stood in for by made-up ephemerides.")
prop("K37", "What pykep draws is the trajectory",
     "The curves and points handed to the plotting library lie on the orbit, arc, leg or mission drawn, cover the asked part of it with the asked number of points, in the asked units, colour and axes. "
     "Drawing changes neither the objects drawn nor their results.",
     ["inputs"], "any orbits, transfers, legs and missions; any units and number of points",
     "No test looks at what is drawn.",
     ["pykep/plot/__init__.py", "pykep/plot/_ballistic.py", "pykep/plot/_lambert.py", "pykep/plot/_planet.py", "pykep/plot/_sf_leg.py", "pykep/trajopt/_mga.py", "pykep/trajopt/_direct_pl2pl.py", "pykep/trajopt/_direct_point2point.py"],
     [("add_lambert, add_planet_orbit, add_sf_leg, add_sf_hf_leg", "pykep/plot"), ("plot", "pykep/trajopt/_mga.py")],
     ["recorded curves and points"], "property-based testing of the recorded curves against the orbit equations",
     SAMPLED + PYK + "matplotlib is stood in for by a recorder.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    na = {i for i, _ in NA}
    m = {"version": 1, "setup_cmd": "./check.py --setup",
         "checks": [{"property": d["id"], "quick_cmd": "./check.py %s quick" % d["id"],
                     "thorough_cmd": "./check.py %s thorough" % d["id"],
                     "evidence_file": "evidence/%s.json" % d["id"], "technique": t, "level": "exploration", "level_note": n}
                    for d, t, n in P if d["id"] not in na],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA],
         "notes": "See DESIGN.md. Replay a violation with ./check.py PROPERTY --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

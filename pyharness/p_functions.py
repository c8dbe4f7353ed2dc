"""K30: pykep's functions return exactly what the C++ library returns."""
import math

import numpy as np
import pykep as pk
from pykep import core

from gen import *
from pbt import test

ANOMALIES = {"m2e": 0, "e2m": 0, "m2f": 0, "f2m": 0, "e2f": 0, "f2e": 0, "n2h": 1, "h2n": 1, "n2f": 1, "f2n": 1, "h2f": 1,
             "f2h": 1, "zeta2f": 1, "f2zeta": 1}


def direct(c, what, x):
    return outcome(lambda: core._direct(what, [float(y) for y in x]))


def agree(c, what, got, want, layout=None):
    """The same numbers in the layout the documentation gives, or an exception of the same kind."""
    c.require(got[0] == want[0], "%s: %s, the C++ library: %s" % (what, got, want))
    if got[0] == "raised":
        c.same(what + ": exception", got[1:], want[1:])
        c.label("raises " + got[1])
        return
    if layout is not None:
        c.same(what + ": shape", layout(got[1]), True)
    c.same(what, flat(got[1]), want[1])
    c.keep(what, got[1])


def anomaly(c, hyp):
    e = (c.log(1.0001, 50.) if c.flag(0.8) else 1 + c.log(1e-9, 1)) if hyp else c.rough(0., 0.999)
    return c.rough(-12., 12.) if not hyp else c.rough(-3., 3.), e


@test("K30", "the eccentricity is not 0", 48000, 4000000)
def anomalies(c):
    name = c.pick(sorted(ANOMALIES))
    x, e = anomaly(c, ANOMALIES[name])
    if c.flag(0.1):
        e = c.pick([-0.5, 0., 1., 2., math.nan])
    c.note(function=name, x=x, e=e)
    c.label(name)
    want = direct(c, name, [x, e])
    agree(c, name, outcome(lambda: getattr(pk, name)(x, e)), want)
    c.nontrivial(e != 0)


@test("K30", "the arrays have more than one number and are not of the same shape", 24000, 2000000)
def vectorised_anomalies(c):
    name = c.pick(sorted(ANOMALIES))
    shape = tuple(c.int(1, 4) for _ in range(c.int(0, 3)))
    k = c.int(0, 5)
    xs, es = np.zeros(shape), np.zeros(shape)
    for j in range(xs.size):
        xs.flat[j], es.flat[j] = anomaly(c, ANOMALIES[name])
    a, b = xs, es
    if shape and k == 1:
        b = es.flat[0]
    elif shape and k == 2:
        a = xs.flat[0]
    elif len(shape) > 1 and k == 3:
        b = es[(0,) * (len(shape) - 1)]
    elif len(shape) > 1 and k == 4:
        a = xs[..., :1]
    if c.flag(0.3):
        a = a.tolist() if hasattr(a, "tolist") else a
    c.note(function=name, x=a, e=b)
    got = getattr(pk, name + "_v")(a, b)
    c.keep(name + "_v", got)
    getattr(pk, name + "_v")(np.multiply(a, 0.5), b)
    A, B = np.broadcast_arrays(np.array(a), np.array(b))
    want = [core._direct(name, [float(x), float(y)])[0] for x, y in zip(A.flat, B.flat)]
    c.same(name + "_v: shape", np.shape(got), A.shape)
    c.same(name + "_v", flat(got), want)
    c.nontrivial(A.size > 1 and np.shape(a) != np.shape(b))


def is_rv(x):
    return len(x) == 2 and all(len(y) == 3 for y in x)


def six(x):
    return len(x) == 6


@test("K30", "the conversion returns", 48000, 4000000)
def element_conversions(c):
    mu, L, _ = units(c)
    par = elements(c, mu, L)
    if c.flag(0.05):
        par[0] = -par[0]
    name = c.pick(["ic2par", "par2ic", "ic2eq", "eq2ic", "par2eq", "eq2par"])
    retro = c.flag()
    c.note(function=name, par=par, mu=mu, retrograde=retro)
    c.label(name)
    if name.startswith("ic"):
        try:
            s = list(state(par, mu))
        except ValueError:
            s = [[L, 0., 0.], [0., math.sqrt(mu / L), 0.]]
    elif name.startswith("eq"):
        s = flat(core._direct("par2eq", [*par, retro]))
        if c.flag(0.05):
            s[0] = -s[0]
    else:
        s = par
    args = {"ic2par": [mu], "par2ic": [mu], "ic2eq": [mu, retro], "eq2ic": [mu, retro], "par2eq": [retro], "eq2par": [retro]}[name]
    given = shaped(c, s)
    got = outcome(lambda: getattr(pk, name)(given, *args))
    agree(c, name, got, direct(c, name, flat(s) + args), is_rv if name.endswith("ic") else six)
    c.nontrivial(got[0] == "returned")


@test("K30", "the velocities relative to the planet differ", 32000, 2500000)
def flybys(c):
    k = c.int(0, 2)
    vin = [c.uniform(1e3, 2e4) * x for x in c.direction()]
    vout = [c.uniform(1e3, 2e4) * x for x in c.direction()] if c.flag(0.8) else list(vin)
    body = c.pick(["venus", "earth", "mars", "jupiter", "saturn"])
    pl = pk.planet(pk.udpla.jpl_lp(body))
    mu, rp = pl.get_mu_self(), pl.get_safe_radius()
    gin, gout = shaped(c, vin), shaped(c, vout)
    if k < 2:
        name = ["fb_con", "fb_dv"][k]
        f = getattr(pk, name)
        form = c.int(0, 4)
        if form >= 3 and c.flag():
            mu, rp = c.log(1e10, 1e17), c.log(1e5, 1e9)
        got = outcome([lambda: f(gin, gout, pl), lambda: f(v_rel_in=gin, v_rel_out=gout, planet=pl),
                       lambda: f(planet=pl, v_rel_out=gout, v_rel_in=gin), lambda: f(gin, gout, mu, rp),
                       lambda: f(v_rel_in=gin, v_rel_out=gout, safe_radius=rp, mu=mu)][form])
        c.note(function=name, vin=vin, vout=vout, mu=mu, rp=rp, form=form)
        agree(c, name, got, direct(c, name, vin + vout + [mu, rp]))
    else:
        r, beta = rp * c.uniform(1., 20.), c.uniform(-math.pi, math.pi)
        c.note(function="fb_vout", vin=vin, vpla=vout, rp=r, beta=beta, mu=mu)
        got = outcome(lambda: pk.fb_vout(gin, gout, r, beta, mu) if c.flag()
                      else pk.fb_vout(mu=mu, beta=beta, rp=r, v_pla=gout, v_in=gin))
        agree(c, "fb_vout", got, direct(c, "fb_vout", vin + vout + [r, beta, mu]))
    c.nontrivial(vin != vout)


@test("K30", "the time of flight is not 0", 32000, 2500000)
def propagation(c):
    mu, L, _ = units(c)
    rv = orbit(c, mu, L)
    period = 2 * math.pi * math.sqrt(L ** 3 / mu)
    tof = period * c.rough(-2., 2.)
    stm = c.flag()
    g = shaped(c, rv)
    c.note(rv=rv, tof=tof, mu=mu, stm=stm)
    want = direct(c, "propagate_lagrangian", flat(rv) + [tof, mu, stm])
    f = pk.propagate_lagrangian
    got = outcome([lambda: f(g, tof, mu, stm), lambda: f(stm=stm, mu=mu, tof=tof, rv=g), lambda: f(g, tof, mu=mu, stm=stm)][c.int(0, 2)])

    def layout(x):
        if not stm:
            return len(x) == 2 and len(x[0]) == 3 and len(x[1]) == 3
        return len(x) == 2 and is_rv(x[0]) and np.shape(x[1]) == (6, 6)
    agree(c, "propagate_lagrangian", got, want, layout)
    if c.flag(0.3):  # another one, while the first is in use
        t = tof * c.uniform(-1., 1.)
        c.note(then=t)
        agree(c, "propagate_lagrangian", outcome(lambda: f(g, t, mu, stm)), direct(c, "propagate_lagrangian", flat(rv) + [t, mu, stm]), layout)
    if c.flag(0.3):
        tofs = [period * c.uniform(-2., 2.) for _ in range(c.int(0, 5))]
        c.note(tofs=tofs)
        res = outcome(lambda: pk.propagate_lagrangian_v(g, tofs, mu, stm) if c.flag() else
                      pk.propagate_lagrangian_v(rv=g, tofs=np.array(tofs), mu=mu, stm=stm))
        wants = [direct(c, "propagate_lagrangian", flat(rv) + [t, mu, stm]) for t in tofs]
        if res[0] == "raised":
            c.require(any(w[0] == "raised" for w in wants), "propagate_lagrangian_v: %s" % (res,))
        else:
            c.same("propagate_lagrangian_v: number of results", len(res[1]), len(tofs))
            for (posvel, m), w in zip(res[1], wants):
                c.same("propagate_lagrangian_v: stm", m is None, not stm)
                # the vectorised version sees every time of flight from the same start
                x = flat(posvel) + (flat(m) if stm else [])
                c.same("propagate_lagrangian_v: size", len(x), len(w[1]))
                s = [max(norm(w[1][0:3]), L)] * 3 + [max(norm(w[1][3:6]), math.sqrt(mu / L))] * 3
                for i in range(6):
                    c.close("propagate_lagrangian_v", x[i], w[1][i], 1e-9 * s[i])
    c.nontrivial(tof != 0)


# The published values, each to the digits that its sources agree on.
PUBLISHED = {"AU": (149597870700., 1e-9), "CAVENDISH": (6.674e-11, 3e-4), "MU_SUN": (1.327124400e20, 1e-8),
             "MU_EARTH": (3.986004e14, 1e-6), "EARTH_VELOCITY": (29784.69, 1e-6), "EARTH_J2": (1.0826e-3, 1e-3),
             "EARTH_RADIUS": (6.378e6, 1e-3), "RAD2DEG": (57.29577951308232, 1e-15), "DEG2RAD": (0.017453292519943295, 1e-15),
             "DAY2SEC": (86400., 0.), "SEC2DAY": (1 / 86400., 1e-15), "DAY2YEAR": (1 / 365.25, 1e-15), "G0": (9.80665, 0.),
             "CR3BP_EARTH_MOON": (0.01215, 1e-3)}


@test("K30", "every case", 32, 1600)
def constants_and_defaults(c):
    d = core._direct_constants()
    names = ["AU", "CAVENDISH", "MU_SUN", "MU_EARTH", "EARTH_VELOCITY", "EARTH_J2", "EARTH_RADIUS", "RAD2DEG", "DEG2RAD", "DAY2SEC",
             "SEC2DAY", "DAY2YEAR", "G0", "CR3BP_EARTH_MOON"]
    c.note(start=c.int(0, 1000))
    for name, x in zip(names, d):
        c.same(name, getattr(pk, name), x)
        c.close(name + ", as published", x, PUBLISHED[name][0], PUBLISHED[name][0] * PUBLISHED[name][1])
    h = math.pi / 2
    c.same("propagate_lagrangian()", flat(pk.propagate_lagrangian()), core._direct("propagate_lagrangian", [1, 0, 0, 0, 1, 0, h, 1, 0]))
    c.same("propagate_lagrangian_v()", flat(pk.propagate_lagrangian_v()[0][0]),
           core._direct("propagate_lagrangian", [1, 0, 0, 0, 1, 0, h, 1, 0]))
    c.same("propagate_lagrangian_v(): one state, no matrix", [len(pk.propagate_lagrangian_v()), pk.propagate_lagrangian_v()[0][1]], [1, None])
    # objects made without arguments: a quarter of the unit circle, and unit gravity and exhaust velocity
    l = pk.lambert_problem()
    c.same("lambert_problem()", flat(l.r0) + flat(l.r1) + [l.tof, l.mu], [1, 0, 0, 0, 1, 0, h, 1])
    c.same("lambert_problem(): velocities", [float(l.Nmax)] + flat(l.v0) + flat(l.v1),
           core._direct("lambert", [1, 0, 0, 0, 1, 0, h, 1, 0, 1])[:1 + 6 * (2 * l.Nmax + 1)])
    s = pk.stark_problem()
    c.same("stark_problem()", [s.mu, s.veff, s.tol], [1., 1., 1e-16])
    c.nontrivial()


@test("K30", "the integration moved the state", 800, 60000)
def integrators(c):
    kind = c.pick(["stark", "stark_var", "cr3bp", "cr3bp_var"])
    tol = c.pick([1e-16, 1e-12, 1e-8])
    if kind.startswith("stark"):
        mu, L, V = units(c)
        s = flat(orbit(c, mu, L, hyperbolic=False)) + [c.uniform(1., 3.)]
        u = [0.02 * mu / L ** 2 * c.unit() * x for x in c.direction()]
        pars = [mu, V * c.uniform(0.5, 5.), *u]
        t = 2 * math.sqrt(L ** 3 / mu) * c.uniform(-1, 1)
    else:
        s = [c.uniform(-0.5, 0.5) + 0.1, c.uniform(0.4, 1.), c.uniform(-0.3, 0.3)] + [c.uniform(-0.5, 0.5) for _ in range(3)]
        pars = [c.pick([pk.CR3BP_EARTH_MOON, 0.2, 1e-6])]
        t = c.uniform(-2, 2)
    c.note(kind=kind, tol=tol, state=s, pars=pars, t=t)
    get = getattr(pk.ta, "get_" + kind)
    ta = get(tol) if c.flag() else get(tol=tol)
    first = list(ta.state)
    ta.state = s
    ta.pars = pars
    ta.propagate_until(t)
    want = core._direct("ta_" + kind, [tol] + s + pars + [t])
    c.same("get_" + kind, list(ta.state) + [ta.tol], want)
    other = get(tol)
    c.same("get_%s: another call starts afresh" % kind, (list(other.state), other.time), (first, 0.))
    if c.flag(0.1):
        c.same("get_%s() has the documented tolerance" % kind, get().tol, get(1e-16).tol)
    dyn = kind.split("_")[0]
    c.same(dyn + "_dyn", [repr(x) for lr in getattr(pk.ta, dyn + "_dyn")() for x in lr], core._direct_dynamics(dyn))
    c.nontrivial(list(ta.state)[:6] != s[:6])

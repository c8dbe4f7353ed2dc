"""K33: Python planets give what their udpla gives, or what the library computes from it."""
import copy
import gc
import math
import pickle

import numpy as np
import pykep as pk
from pykep import core

from gen import *
from pbt import test
from p_objects import copies, some
from p_functions import direct

EL = ["KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"]


def when(c, t):
    """The same day as a number or an epoch, and whether it is an epoch (exact to a microsecond)."""
    if c.flag(0.3) and abs(t) < 90000.:
        e = pk.epoch(t)
        return e, e.mjd2000
    return t, t


def one(c, what, f, want):
    """f() gives want, or fails as the library does."""
    got = outcome(f)
    c.require(got[0] == want[0], "%s: %s, the C++ library: %s" % (what, got, want))
    if got[0] == "raised":
        c.label("%s raises %s" % (what, got[1]))
        c.same(what + ": exception", got[1:], want[1:])
        return
    c.same(what, flat(got[1]) if not isinstance(got[1], str) else got[1], want[1])
    c.keep(what, got[1])


@test("K33", "the planet can be made", 4800, 200000)
def library_planets(c):
    kind = c.pick(["keplerian", "posvel", "jpl_lp", "vsop2013", "null"])
    name, x = "", []
    U = pk.udpla
    if kind == "jpl_lp":
        name = c.pick(["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "Earth", "MARS", "pluto", ""])
        make = lambda: U.jpl_lp(name) if name != "earth" else c.pick([lambda: U.jpl_lp(), lambda: U.jpl_lp(body=name)])()
        t = c.uniform(-18000., 18000.) if c.flag(0.95) else c.pick([-90000., 90000.])
    elif kind == "vsop2013":
        name = c.pick(["mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto", "earth"])
        x = [c.pick([1e-5, 1e-4, 1e-3, 1e-2]) if c.flag(0.9) else c.pick([0., -1., math.nan])]
        make = lambda: (U.vsop2013(name, x[0]) if c.flag() else U.vsop2013(thresh=x[0], body=name)) if x[0] != 1e-5 else U.vsop2013(name)
        t = c.uniform(-18000., 18000.)
    elif kind == "null":
        make = lambda: U.null_udpla()
        t = c.uniform(-1e4, 1e4)
    else:
        mu, L, _ = units(c)
        par = elements(c, mu, L)
        ref, pars = c.uniform(-9000., 9000.), [c.log(1e-3, 1e3), c.log(1e-3, 1e3), 0.]
        pars[2] = pars[1] * c.uniform(1., 3.)
        name = c.pick(["unknown", "A", "x y", "Erde", "\u00e9", "a" * 60])
        ref = math.floor(ref * 64.) / 64.  # a whole number of microseconds, exactly
        e = pk.epoch(ref)
        short = c.int(0, 3)
        if short == 1:
            pars = [-1., -1., -1.]
        elif short == 2:
            name, pars = "unknown", [-1., -1., -1.]
        if kind == "keplerian":
            el = c.int(0, 3) if c.flag(0.95) else 4
            if el == 0:
                par = par[:5] + [c.uniform(-3., 3.)]
            elif el in (2, 3):
                par = core._direct("par2eq", par + [el == 3])
            if c.flag(0.05):
                par[0] = -par[0]
            x = [ref, *par, mu, *pars, el]
            args = {"when": e, "elem": par, "mu_central_body": mu}
            tail = {"name": name, "added_params": pars, "el_type": getattr(pk.el_type, EL[el])}
        else:
            rv = list(state(par, mu))
            x = [ref, *flat(rv), mu, *pars]
            args = {"when": e, "posvel": shaped(c, rv), "mu_central_body": mu}
            tail = {"name": name, "added_params": pars}
        if short in (0, 3):
            args.update(tail)
        elif short == 1:
            args.update({k: tail[k] for k in tail if k != "added_params"})
        elif "el_type" in tail:
            args["el_type"] = tail["el_type"]
        if short in (0, 3):
            pos, kw = some(c, args)
        else:
            pos, kw = [], args
        make = lambda: U.keplerian(*pos, **kw)
        t = ref + c.rough(-3., 3.) * math.sqrt(L ** 3 / mu) / 86400.
    c.note(kind=kind, name=name, numbers=x, t=t)
    what = lambda w, t=t, el=1: core._direct_planet(kind, name, x, w, t, el)
    c.label(kind)
    want = outcome(lambda: what("numbers")[0])
    made = outcome(make)
    c.require(made[0] == want[0], "%s: %s, the C++ library: %s" % (kind, made, want))
    if made[0] == "raised":
        c.same("exception", made[1:], want[1:])
        c.label("refused: " + made[1])
        return
    u = made[1]
    T = type(u)
    p = pk.planet(u) if c.flag() else pk.planet(udpla=u)
    for step in range(3):
        c.same("getters", [p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()], want[1])
        c.same("name", p.get_name(), what("name")[1])
        c.same("extra info", p.get_extra_info(), what("extra_info")[1])
        c.same("repr", repr(p), what("text")[1])
        w, s = when(c, t)
        one(c, "eph", lambda: p.eph(w) if c.flag() else p.eph(when=w), outcome(lambda: what("eph", s)[0]))
        w, s = when(c, t)
        one(c, "period", lambda: [p.period(w)], outcome(lambda: what("period", s)[0]))
        if step == 0:
            one(c, "period()", lambda: [p.period()], outcome(lambda: what("period", 0.)[0]))
            one(c, "elements()", lambda: p.elements(), outcome(lambda: what("elements", 0.)[0]))
        el = c.int(0, 4)
        w, s = when(c, t)
        one(c, "elements", lambda: p.elements(w, getattr(pk.el_type, EL[el])) if c.flag() else
            p.elements(el_type=getattr(pk.el_type, EL[el]), when=w), outcome(lambda: what("elements", s, el)[0]))
        ts = [t + c.uniform(-100., 100.) for _ in range(c.int(0, 4))]
        one(c, "eph_v", lambda: p.eph_v(np.array(ts)) if c.flag() else p.eph_v(ts), outcome(lambda: [z for y in ts for z in what("eph", y)[0]]))
        got = outcome(lambda: np.shape(p.eph_v(ts)))
        if got[0] == "returned":
            c.same("eph_v: shape", got[1], (len(ts), 6))
        for other in (U.keplerian, U.jpl_lp, U.vsop2013, U.null_udpla):
            c.same("is_", p.is_(other), other is T)
            c.same("extract: found", p.extract(other) is not None, other is T)
            c.require(other is not T or type(p.extract(other)) is T, "extract: another type")
        c.same("extract(object)", (p.extract(object), p.is_(object)), (None, False))
        c.raises("extract of no type", TypeError, lambda: p.extract(3))
        if step == 0:
            p, how = copies(c, p)
            c.label(how)
        elif step == 1:
            q = p.extract(T)
            if c.flag():
                del u, p
                gc.collect()
            p = pk.planet(q)
    if kind in ("keplerian", "posvel"):
        c.same("ref_epoch", repr(q.ref_epoch), repr(pk.epoch(x[0])))
    c.nontrivial()


class Fault(Exception):
    pass


@test("K33", "an optional method is defined", 12000, 500000)
def own_planets(c):
    mu, L, _ = units(c)
    par = elements(c, mu, L)
    par[1] = max(par[1], 1e-3)
    rv = list(state(par, mu))
    has = {k: c.int(0, 4) for k in ("eph_v", "get_name", "get_extra_info", "get_mu_central_body", "get_mu_self", "get_radius",
                                    "get_safe_radius", "period", "elements")}
    # 0, 1: no such method; 2: an attribute that cannot be called; 3, 4: the method
    calls = []
    shape = c.int(0, 3)
    factor = lambda t: 1. + 1e-5 * t

    class own:
        def eph(self, t):
            calls.append(("eph", t))
            k = factor(t)
            r, v = [[k * y for y in x] for x in rv]
            return [[r, v], (tuple(r), tuple(v)), [np.array(r), np.array(v)], np.array([r, v])][shape]

        def __str__(self):
            return "the own planet"
    numbers = {"get_mu_central_body": mu, "get_mu_self": mu / 7, "get_radius": L / 10, "get_safe_radius": L / 9}
    strings = {"get_name": "Planet \u00c9", "get_extra_info": "some info"}

    def add(k, f):
        if has[k] == 2:
            setattr(own, k, c.pick([3, "text", None, []]))
        elif has[k] > 2:
            setattr(own, k, f)
    for k, x in list(numbers.items()) + list(strings.items()):
        add(k, lambda self, x=x: x)
    layout, wrong = c.int(0, 4), (c.pick([-6, -1, 1, 6]) if c.flag(0.1) else 0)

    def eph_v(self, ts):
        calls.append(("eph_v", list(ts)))
        x = [2 * factor(t) * y for t in ts for y in flat(rv)]
        if wrong > 0:
            x += [0.] * wrong
        elif wrong < 0:
            x = x[:wrong]
        elif layout == 1:
            return np.array(x)
        elif layout == 2:
            return np.array(x).reshape(-1, 6)
        elif layout == 3:
            return np.asfortranarray(np.array(x).reshape(-1, 6))
        elif layout == 4:
            return [x[6 * i:6 * i + 6] for i in range(len(ts))]
        return x
    add("eph_v", eph_v)
    add("period", lambda self, t: 3.5 + t)

    def els(self, t, el):
        calls.append(("elements", t, el))
        return [c.pick([list, tuple, np.array])([1., 2., 3., 4., 5., t])][0]
    add("elements", els)
    there = {k: has[k] > 2 for k in has}
    c.note(orbit=par, mu=mu, methods={k: has[k] for k in has}, layout=layout, wrong=wrong, shape=shape)
    u = own()
    if c.flag(0.3):  # a method of the instance counts as well
        u.get_radius = lambda: 42.
        there["get_radius"] = True
        numbers["get_radius"] = 42.
    p = pk.planet(u) if c.flag() else pk.planet(udpla=u)
    if c.flag(0.3):
        p = copy.copy(p)
    if c.flag(0.5):
        ref = u
        del u
        gc.collect()
        u = ref
    c.same("extract", (p.extract(own) is u, p.extract(object) is u, p.is_(own), p.extract(pk.udpla.keplerian), p.extract(int)),
           (True, True, True, None, None))
    for k in numbers:
        c.same(k, getattr(p, k)(), numbers[k] if there[k] else -1.)
    c.same("get_name", p.get_name(), strings["get_name"] if there["get_name"] else str(own))
    c.same("get_extra_info", p.get_extra_info(), strings["get_extra_info"] if there["get_extra_info"] else "")
    c.require(p.get_name() in repr(p) and p.get_extra_info() in repr(p), "repr without the name or the extra info: " + repr(p))
    t = c.uniform(-2e4, 2e4)
    w, s = when(c, t)
    del calls[:]
    got = p.eph(w)
    k = factor(s)
    c.same("eph", got, [[k * y for y in x] for x in rv])
    c.same("eph: calls", calls, [("eph", s)])
    ts = [c.uniform(-2e4, 2e4) for _ in range(c.int(0, 5))]
    del calls[:]
    got = outcome(lambda: p.eph_v(ts))
    if there["eph_v"]:
        short = wrong < 0 and not ts
        if wrong and not short:
            c.require(got[0] == "raised" and got[1] == "ValueError", "eph_v with %d values too many: %s" % (wrong, got))
            c.label("eph_v of the wrong size")
        else:
            c.require(got[0] == "returned", "eph_v: %s" % (got,))
            c.same("eph_v", got[1], [[2 * factor(t) * y for y in flat(rv)] for t in ts])
        c.same("eph_v: calls", calls, [("eph_v", ts)])
    else:
        c.require(got[0] == "returned", "eph_v: %s" % (got,))
        c.same("eph_v from eph", got[1], [[factor(t) * y for y in flat(rv)] for t in ts])
        c.same("eph_v from eph: calls", calls, [("eph", t) for t in ts])
    c.require(got[0] == "raised" or np.shape(got[1]) == (len(ts), 6), "eph_v: shape")
    # period and elements: the own method, else computed from eph and the central body, else refused
    w, s = when(c, t)
    got = outcome(lambda: p.period(w))
    k = factor(s)
    now = [[k * y for y in x] for x in rv]
    if there["period"]:
        c.same("period", got, ("returned", 3.5 + s))
    elif there["get_mu_central_body"]:
        r, v2 = norm(now[0]), dot(now[1], now[1])
        en = v2 / 2 - mu / r
        c.require(got[0] == "returned", "period: %s" % (got,))
        if en > 0:
            c.require(math.isnan(got[1]), "period of a hyperbola: %r" % got[1])
        else:
            a = -mu / 2 / en
            c.close("period from eph", got[1], 2 * math.pi * math.sqrt(a / mu) * a, 1e-14 * got[1] * (1 + 2 * mu / r / -en))
    else:
        c.same("period", got[:2], ("raised", "NotImplementedError"))
    el = c.int(0, 4)
    w, s = when(c, t)
    del calls[:]
    got = outcome(lambda: p.elements(w, getattr(pk.el_type, EL[el])))
    k = factor(s)
    now = [k * y for x in rv for y in x]
    if there["elements"]:
        c.same("elements", got, ("returned", [1., 2., 3., 4., 5., s]))
        c.same("elements: calls", calls, [("elements", s, getattr(pk.el_type, EL[el]))])
    elif there["get_mu_central_body"]:
        e0 = core._direct("ic2par", now + [mu])
        if el == 1:
            want = ("returned", e0)
        elif el in (2, 3):
            want = direct(c, "par2eq", e0 + [el == 3])
        elif el == 0:
            if e0[0] < 0:
                want = ("raised",)
            else:
                want = ("returned", e0[:5] + [core._direct("f2m", [e0[5], e0[1]])[0]])
        else:
            want = ("raised",)
        c.require(got[0] == want[0], "elements of type %s: %s, expected %s" % (EL[el], got, want))
        if got[0] == "returned":
            c.same("elements from eph", got[1], want[1])
    else:
        c.same("elements", got[:2], ("raised", "NotImplementedError"))
    # an exception of the planet's own arrives unchanged
    own.eph = lambda self, t: (_ for _ in ()).throw(Fault("%g" % t))
    for f in [lambda: p.eph(1.5)] + ([] if there["eph_v"] else [lambda: p.eph_v([1.5])]):
        c.same("exception in eph", outcome(f), ("raised", "Fault", "1.5"))
    c.nontrivial(any(there.values()))


@test("K33", "every case", 2400, 60000)
def refused_planets(c):
    class good:
        def eph(self, t):
            return [[1., 0., 0.], [0., 1., 0.]]

    class no_eph:
        def ephs(self, t):
            return [[1., 0., 0.], [0., 1., 0.]]

    class eph_not_callable:
        eph = c.pick([3, None, "x", []])

    class bad_eph:
        def eph(self, t):
            return bad
    k = c.int(0, 4)
    c.note(case=k)
    if k == 0:
        c.raises("planet of a planet", TypeError, lambda: pk.planet(pk.planet(good())))
    elif k == 1:
        t = c.pick([good, no_eph, int, object])
        c.raises("planet of a type", TypeError, lambda: pk.planet(t))
    elif k == 2:
        x = c.pick([no_eph(), eph_not_callable(), 3, "earth", [1], object()])
        c.note(udpla=repr(type(x)))
        c.raises("planet without eph", NotImplementedError, lambda: pk.planet(x))
    elif k == 3:
        bad = c.pick([None, 3., [1., 2., 3.], [[1., 2., 3.]], [[1., 2.], [3., 4.]], [[1., 2., 3.]] * 3, [["a", "b", "c"], ["d", "e", "f"]], "text"])
        c.note(eph=bad)
        p = pk.planet(bad_eph())
        c.require(outcome(lambda: p.eph(0.))[0] == "raised", "eph of a planet whose eph returns %r" % (bad,))
        c.require(outcome(lambda: p.eph_v([0., 1.]))[0] == "raised", "eph_v of a planet whose eph returns %r" % (bad,))
    else:
        p = pk.planet(good())
        w = c.pick([None, "2000-01-01", [1.], {}])
        c.note(when=w)
        c.raises("eph(%r)" % (w,), TypeError, lambda: p.eph(w))
        c.raises("period(%r)" % (w,), TypeError, lambda: p.period(w))
    c.nontrivial()


@test("K33", "the planet is not already Keplerian", 6000, 250000)
def to_keplerian(c):
    mu, L, _ = units(c)
    t = c.uniform(-9000., 9000.)
    k = c.int(0, 2)
    own = False
    if k == 0:
        p = pk.planet(pk.udpla.jpl_lp(c.pick(["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"])))
        mu = p.get_mu_central_body()
    else:
        rv = orbit(c, mu, L)
        own = k == 2

        class moving:
            def eph(self, t):
                return [[x * (1 + 1e-6 * t) for x in rv[0]], rv[1]]

            def get_name(self):
                return "moving"

            def get_radius(self):
                return L / 100
        if not own:
            moving.get_mu_central_body = lambda self: mu
        p = pk.planet(moving())
    w, s = when(c, t)
    if not isinstance(w, pk.epoch):
        w = pk.epoch(t)
        s = w.mjd2000
    c.note(planet=p.get_name(), t=t, mu=mu, given=own)
    if own:
        c.raises("planet_to_keplerian without a central body", ValueError, lambda: pk.planet_to_keplerian(p, w))
        q = pk.planet_to_keplerian(p, w, mu) if c.flag() else pk.planet_to_keplerian(p, when=w, mu=mu)
    elif c.flag(0.3):
        mu *= 1.1
        q = pk.planet_to_keplerian(p, w, mu)
    else:
        q = pk.planet_to_keplerian(p, w)
    c.require(q.is_(pk.udpla.keplerian), "not a Keplerian planet")
    c.same("numbers", [q.get_mu_central_body(), q.get_mu_self(), q.get_radius(), q.get_safe_radius(), q.get_name()],
           [mu, p.get_mu_self(), p.get_radius(), p.get_safe_radius(), p.get_name() + "(K)"])
    rv = p.eph(s)
    c.same("at the epoch", q.eph(s), core_state(rv, mu, 0.))
    R, V = norm(rv[0]), norm(rv[1])
    dt = 0.3 * R / V * c.uniform(-1., 1.)
    later = s + dt / 86400.
    got, want = q.eph(later), core_state(rv, mu, (later - s) * 86400.)
    # the epochs count to a microsecond at best, and the difference of two days to their last place
    slack = 1e-6 + 1e-9 * abs(dt) + 86400. * 4e-16 * abs(t) * 4
    for i in range(3):
        c.close("later: position", got[0][i], want[0][i], 1e-11 * R + 3 * V * slack)
        c.close("later: velocity", got[1][i], want[1][i], 1e-11 * V + 3 * mu / R ** 2 * slack)
    c.nontrivial()


def core_state(rv, mu, dt):
    x = core._direct("propagate_lagrangian", flat(rv) + [dt, mu, 0.])
    return [x[:3], x[3:6]]

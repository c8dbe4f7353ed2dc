"""K37: what pykep draws is the trajectory: the points handed to matplotlib lie on it, in the units asked for.

matplotlib is not here; a stand-in records what is drawn (fakes/)."""
import contextlib
import copy
import io
import math

import matplotlib.pyplot as plt
import numpy as np
import pykep as pk
from pykep import core

from gen import *
from p_direct import Transfer
from p_mga import Problem, Trajectory, decode, untouched, well_placed, sub
from p_planets import when
from pbt import test

DAY = 86400.
PLOT = pk.plot


def axes():
    return plt.figure().add_subplot(projection="3d")


def curve(call):
    """The points of a call of plot or scatter."""
    xs, ys, zs = [np.atleast_1d(np.array(q, float)) for q in call[1][:3]]
    return np.stack([xs, ys, zs], axis=1)


def calls(ax, kind):
    return [d for d in ax.drawn if d[0] == kind]


def fly(rv, dt, mu):
    x = core._direct("propagate_lagrangian", flat(rv) + [dt, mu, 0.])
    return [x[:3], x[3:6]]


def points(c, what, got, want, tol):
    """The same points in the same order."""
    c.same(what + ": number of points", len(got), len(want))
    for p, q in zip(got, want):
        c.close(what, norm(sub(p, q)), 0., tol)


def same_set(c, what, got, want, tol):
    """The same points in any order."""
    c.same(what + ": number of points", len(got), len(want))
    left = [list(q) for q in want]
    for p in got:
        d = [norm(sub(p, q)) for q in left]
        k = int(np.argmin(d)) if d else 0
        c.close(what, d[k], 0., tol)
        del left[k]


def look(c):
    """Keywords that are for matplotlib."""
    k = {}
    if c.flag():
        k["alpha"] = c.uniform(0., 1.)
    if c.flag():
        k["label"] = c.pick(["", "an orbit"])
    return k


def passed(c, call, kw):
    for k in kw:
        c.same("keyword " + k, call[2].get(k, "none"), kw[k])


@test("K37", "the orbit is not circular", 12000, 600000)
def by_anomaly(c):
    mu, L, V = units(c)
    par = elements(c, mu, L)
    rv = state(par, mu)
    e, f = par[1], par[5]
    n = c.int(1, 6)
    if e > 1:
        lim = 0.9 * math.acos(-1 / e)
        ths = [c.uniform(-lim, lim) - f for _ in range(n)]
    else:
        ths = [c.rough(-2., 2.) * math.pi for _ in range(n)]
    c.note(elements=par, mu=mu, thetas=ths)
    kw = {"rv": shaped(c, rv), "thetas": [list, tuple, np.array][c.int(0, 2)](ths), "mu": mu}
    if c.flag():
        kw["stm"] = False
    got = untouched(c, "propagate_lagrangian_theta_v", lambda *a: PLOT.propagate_lagrangian_theta_v(**kw), kw["rv"][0], kw["rv"][1], kw["thetas"])
    c.same("shape", np.shape(got), (n, 6))
    for th, x in zip(ths, got):
        r, v = state(par[:5] + [f + th], mu)
        k = 1e-11 * (1 + abs(th)) / (1 - e if e < 1 else 1) * max(1, norm(r) / norm(rv[0]), norm(rv[0]) / norm(r)) ** 2
        for a, b in zip(x[:3], r):
            c.close("position", float(a), b, k * norm(r))
        for a, b in zip(x[3:], v):
            c.close("velocity", float(a), b, k * max(norm(v), norm(rv[1])))
    if c.flag(0.1): # a quarter of the unit circular orbit, unless told otherwise
        c.same("defaults", PLOT.propagate_lagrangian_theta_v().tolist(),
               PLOT.propagate_lagrangian_theta_v([[1, 0, 0], [0, 1, 0]], [0., math.pi / 2], 1, False).tolist())
    c.raises("with the state transition matrix", NotImplementedError, lambda: PLOT.propagate_lagrangian_theta_v(kw["rv"], kw["thetas"], mu, True))
    c.nontrivial(e > 1e-3)


@test("K37", "the arc is drawn", 12000, 600000)
def arcs(c):
    mu, L, V = units(c)
    rv = orbit(c, mu, L)
    R = norm(rv[0])
    tof = c.uniform(-3., 3.) * R / norm(rv[1])
    N, scale = c.int(2, 12) if c.flag(0.8) else 60, L * c.log(0.1, 10.)
    kw = look(c)
    c.note(rv=rv, tof=tof, mu=mu, units=scale, N=N)
    ax = axes()
    args = shaped(c, rv)
    if N == 60:
        back = untouched(c, "add_ballistic_arc", lambda *a: PLOT.add_ballistic_arc(ax, args, tof, mu, units=scale, **kw), args[0], args[1])
    else:
        back = untouched(c, "add_ballistic_arc", lambda *a: PLOT.add_ballistic_arc(ax, rv0=args, tof=tof, mu=mu, units=scale, N=N, **kw), args[0], args[1])
    c.require(back is ax, "add_ballistic_arc does not return the axes")
    c.same("drawn", len(ax.drawn), 1)
    passed(c, ax.drawn[0], kw)
    got = curve(ax.drawn[0])
    want = [[q / scale for q in fly(rv, tof * i / (N - 1), mu)[0]] for i in range(N)]
    far = max(norm(w) for w in want)
    close = min(norm(w) for w in want)
    points(c, "arc", got, want, 1e-10 * far * (far / close) ** 3 * N)
    # where it is, and not in which units: a planet and its orbit
    p = pk.planet(pk.udpla.keplerian(pk.epoch(0.), rv, mu, "p"))
    t = c.uniform(-2., 2.) * R / norm(rv[1]) / DAY
    ax = axes()
    w, s = when(c, t)
    c.require(PLOT.add_planet(ax, p, w, units=scale, **kw) is ax, "add_planet does not return the axes")
    c.same("drawn", [d[0] for d in ax.drawn], ["scatter"])
    passed(c, ax.drawn[0], kw)
    points(c, "planet", curve(ax.drawn[0]), [[q / scale for q in p.eph(s)[0]]], 1e-13 * far * 10)
    ax = axes()
    en = dot(rv[1], rv[1]) / 2 - mu / R
    if c.flag() or en > 0:
        a, b = sorted([t, t + c.uniform(0., 2.) * R / norm(rv[1]) / DAY])
        back = PLOT.add_planet_orbit(ax, p, plot_range=[a, b], units=scale, N=N, **kw)
    else:
        a, b = 0., p.period() / DAY
        back = PLOT.add_planet_orbit(ax, p, units=scale, N=N, **kw) if N != 60 else PLOT.add_planet_orbit(ax, p, units=scale, **kw)
    c.require(back is ax, "add_planet_orbit does not return the axes")
    c.same("drawn", [d[0] for d in ax.drawn], ["plot"])
    passed(c, ax.drawn[0], kw)
    want = [[q / scale for q in p.eph(a + (b - a) * i / (N - 1))[0]] for i in range(N)]
    far, close = max(norm(w) for w in want), min(norm(w) for w in want)
    points(c, "orbit", curve(ax.drawn[0]), want, 1e-10 * far * (far / close) ** 3)
    c.nontrivial()


@test("K37", "every case", 4800, 240000)
def axes_and_sun(c):
    kw = {k: c.pick([1, 2, "x"]) for k in ("figsize", "dpi", "num") if c.flag()}
    ax = PLOT.make_3Daxis(**kw)
    c.same("keywords of the figure", ax.figure.kwargs, kw)
    kw = {k: c.pick([1, 2, "x"]) for k in ("c", "s", "label", "alpha") if c.flag()}
    c.require(PLOT.add_sun(ax, **kw) is ax, "add_sun does not return the axes")
    c.same("drawn", [(d[0], flat(list(d[1]))) for d in ax.drawn], [("scatter", [0., 0., 0.])])
    passed(c, ax.drawn[0], kw)
    c.require({"c", "s", "label"} <= set(ax.drawn[0][2]), "add_sun leaves out its look")

    class still:
        def eph(self, t):
            return [[1., 2., 3.], [0., 0., 0.]]
    p = pk.planet(still())
    with contextlib.redirect_stdout(io.StringIO()):
        c.raises("the orbit of a planet without a period", NotImplementedError, lambda: PLOT.add_planet_orbit(ax, p))
    c.nontrivial()


NAMES = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"]


@test("K37", "more than one body", 1800, 72000)
def solar_system(c):
    ids = [i for i in range(1, 9) if c.flag(0.4)] if c.flag(0.8) else None
    t = c.uniform(-15000., 15000.)
    sizes = [float(c.int(1, 50)) + 0.01 * i for i in range(9)] if c.flag() else None
    kw = {}
    if ids is not None:
        kw["bodies"] = list(ids)
    if c.flag(0.9):
        kw["when"] = pk.epoch(t)
        t = kw["when"].mjd2000
    else:
        t = 0.
    if sizes:
        kw["s"] = list(sizes)
    c.note(bodies=ids, t=t, sizes=sizes)
    ax = axes()
    c.require(PLOT.add_solar_system(ax, **kw) is ax, "add_solar_system does not return the axes")
    ids = [1, 2, 3, 4, 5, 6] if ids is None else ids
    sc, pl = calls(ax, "scatter"), calls(ax, "plot")
    c.same("bodies and orbits drawn", (len(sc), len(pl)), (1 + len(ids), len(ids)))
    c.same("the Sun", curve(sc[0]).tolist(), [[0., 0., 0.]])
    if sizes:
        c.same("size of the Sun", sc[0][2].get("s"), sizes[0])
    for i, a, b in zip(ids, sc[1:], pl):
        p = pk.planet(pk.udpla.jpl_lp(NAMES[i - 1]))
        r, v = p.eph(t)
        mu = p.get_mu_central_body()
        points(c, "body", curve(a), [[q / pk.AU for q in r]], 1e-11 * norm(r) / pk.AU)
        c.same("label", a[2].get("label", "").lower(), NAMES[i - 1])
        if sizes:
            c.same("size", a[2].get("s"), sizes[i])
        # the orbit that the body is on: |r| + e.r = p, in its plane, all the way around
        h = cross(r, v)
        ev = [q / mu - w / norm(r) for q, w in zip(cross(v, h), r)]
        P = dot(h, h) / mu
        got = curve(b) * pk.AU
        for x in got:
            x = x.tolist()
            c.close("orbit", norm(x) + dot(ev, x), P, 1e-8 * P)
            c.close("plane of the orbit", dot(h, x) / norm(h), 0., 1e-8 * P)
        c.require(len(got) >= 30, "an orbit of %d points" % len(got))
        turn = 0.
        for x, y in zip(got, got[1:]):
            turn += math.atan2(norm(np.cross(x, y)), float(np.dot(x, y)))
        c.close("turn of the orbit", turn, 2 * math.pi, 0.3)
    c.nontrivial(len(ids) > 1)


@test("K37", "the transfer is the long way, or of more than a revolution", 12000, 600000)
def lambert_arcs(c):
    mu, L, V = units(c)
    a, b = c.direction(), c.direction()
    A, B = c.uniform(0.5, 2.), c.uniform(0.5, 2.)
    edge = c.int(0, 5)
    if edge < 2:  # close to half a turn, or to none
        q = c.log(1e-3, 0.05)
        b = [q * y + (x if edge else -x) for x, y in zip(a, b)]
        b = [y / norm(b) for y in b]
        c.need(not edge or abs(math.log(A / B)) > 0.2)
        c.label("almost half a turn" if edge == 0 else "almost no turn")
    n = cross(a, b)
    c.need(norm(n) > (3e-4 if edge < 2 else 0.05) and abs(n[2]) > 1e-2 * norm(n))
    r0, r1 = [L * A * x for x in a], [L * B * x for x in b]
    tof = math.sqrt(L ** 3 / mu) * c.log(1., 60.)
    cw, revs = c.flag(), c.int(0, 4)
    lp = pk.lambert_problem(r0, r1, tof, mu, cw, revs)
    n = 2 * lp.Nmax + 1
    sol = c.int(0, n - 1)
    N, scale, kw = (c.int(2, 20) if c.flag(0.8) else 60), L * c.log(0.1, 10.), look(c)
    c.note(r0=r0, r1=r1, tof=tof, mu=mu, cw=cw, revs=revs, sol=sol, N=N, units=scale)
    ax = axes()
    opt = dict(kw)
    if sol or c.flag():
        opt["sol"] = sol
    if N != 60:
        opt["N"] = N
    c.require(PLOT.add_lambert(ax, lp, units=scale, **opt) is ax, "add_lambert does not return the axes")
    c.same("drawn", [d[0] for d in ax.drawn], ["plot"])
    passed(c, ax.drawn[0], kw)
    got = curve(ax.drawn[0]) * scale
    c.same("number of points", len(got), N)
    v0 = lp.v0[sol]
    h = cross(r0, v0)
    ev = [q / mu - w / norm(r0) for q, w in zip(cross(v0, h), r0)]
    P, e = dot(h, h) / mu, norm(ev)
    c.need(abs(1 - e) > 1e-2 and P > 1e-2 * L)
    size = max(np.linalg.norm(got, axis=1))
    points(c, "start", got[:1], [r0], 1e-9 * size)
    whole = sol > 0
    points(c, "end", got[-1:], [r0 if whole else r1], 1e-7 * size * (size / P) ** 2)
    for x in got:
        c.close("on the orbit", norm(x) + dot(ev, x), P, 1e-7 * (P + size))
        c.close("in its plane", dot(h, x) / norm(h), 0., 1e-8 * size)
    # the way the spacecraft flies, without leaving out or doubling a part
    th = math.atan2(dot(cross(r0, r1), h) / norm(h), dot(r0, r1))
    th = th if th > 0 else th + 2 * math.pi
    if N > 10:
        turn = 0.
        for x, y in zip(got, got[1:]):
            x, y = x.tolist(), y.tolist()
            turn += math.atan2(dot(cross(x, y), h) / norm(h), dot(x, y))
        c.close("turn", turn, 2 * math.pi if whole else th, 1e-5)
    c.raises("a solution that there is not", ValueError, lambda: PLOT.add_lambert(ax, lp, sol=n + c.int(0, 3)))
    c.nontrivial(whole or th > math.pi)


def nodes(T, sf):
    """Arcs, nodes, and midpoints with their throttles of a Sims-Flanagan leg, forward and backward."""
    nseg = len(sf.throttles) // 3
    dt = sf.tof / nseg
    fwd = int(nseg * sf.cut)
    out = []
    for rv, m, sign, order in ((sf.rvs, sf.ms, 1., range(fwd)), (sf.rvf, sf.mf, -1., range(nseg - 1, fwd - 1, -1))):
        rv = [list(rv[0]), list(rv[1])]
        arcs, ns, mid = [], [rv[0]], []
        for i in order:
            u = sf.throttles[3 * i:3 * i + 3]
            arcs.append((rv, sign * dt / 2))
            rv = fly(rv, sign * dt / 2, sf.mu)
            mid.append((rv[0], u))
            rv = [rv[0], [a + sign * b * sf.max_thrust * dt / m for a, b in zip(rv[1], u)]]
            m *= math.exp(-sign * norm(u) * sf.max_thrust * dt / m / sf.isp / 9.80665)
            arcs.append((rv, sign * dt / 2))
            rv = fly(rv, sign * dt / 2, sf.mu)
            ns.append(rv[0])
        out.append((arcs, ns, mid))
    return out


def is_marker(d):
    return len(d[1]) > 3


def check_leg(c, sf, drawn, scale, N, flags, look, length):
    """The calls draw the leg sf, and nothing else."""
    fwd, bck = nodes(None, sf)
    arcs = fwd[0] + bck[0]
    lines = [d for d in drawn if d[0] == "plot" and not is_marker(d)]
    want = [[[q / scale for q in fly(rv, dt * i / (N - 1), sf.mu)[0]] for i in range(N)] for rv, dt in arcs]
    c.same("number of arcs", len(lines), len(want))
    for d in lines:
        passed(c, d, look)
    left = [np.array(w) for w in want]
    far = max(float(np.max(np.linalg.norm(w, axis=1))) for w in want)
    near = min(float(np.min(np.linalg.norm(w, axis=1))) for w in want)
    c.need(near > 0.05 * far)
    tol = 1e-9 * far * (far / near) ** 3
    for d in lines:
        got = curve(d)
        c.same("points of an arc", len(got), N)
        off = [float(np.max(np.linalg.norm(got - w, axis=1))) for w in left]
        k = int(np.argmin(off))
        c.close("arc of a leg", off[k], 0., tol)
        del left[k]
    marks = [d for d in drawn if d[0] == "plot" and is_marker(d)]
    gs = [p for d in marks if "." in d[1][3] for p in curve(d)]
    ms = [p for d in marks if "x" in d[1][3] for p in curve(d)]
    every = [[q / scale for q in p] for p in fwd[1] + bck[1]]
    mids = [([q / scale for q in p], u) for p, u in fwd[2] + bck[2]]
    same_set(c, "grid points", gs, every if flags["show_gridpoints"] else [], tol)
    same_set(c, "midpoints", ms, [m[0] for m in mids] if flags["show_midpoints"] else [], tol)
    qs = [d for d in drawn if d[0] == "quiver"]
    arrows = [list(map(float, z)) for d in qs for z in zip(*[np.atleast_1d(np.array(w, float)) for w in d[1][:6]])]
    same_set(c, "throttles", arrows, [m[0] + list(m[1]) for m in mids] if flags["show_throttles"] else [], tol + 1e-12)
    for d in qs:
        c.same("length of the arrows", d[2].get("length"), length)
    return len(lines) + len(marks) + len(qs)


def leg_options(c):
    flags = {k: c.flag() for k in ("show_midpoints", "show_gridpoints", "show_throttles")}
    opt = {k: v for k, v in flags.items() if v or c.flag()}
    length = 0.1
    if c.flag():
        length = opt["length"] = c.log(0.01, 1.)
    if c.flag():
        opt["arrow_length_ratio"] = c.uniform(0.01, 0.1)
    return flags, opt, length


@test("K37", "segments on both sides of the cut", 4800, 240000)
def low_thrust_legs(c):
    T = Transfer(c, False)
    T.tof = min(T.tof, 2.5 * T.tau / DAY)
    T.planets = False
    ends = [orbit(c, T.mu, T.L, hyperbolic=False) for _ in range(2)]
    sf = pk.leg.sims_flanagan(rvs=ends[0], ms=T.ms, throttles=T.throttles, rvf=ends[1], mf=T.mf, tof=T.tof * DAY, max_thrust=T.thrust, isp=T.isp,
                              mu=T.mu, cut=T.cut)
    before = repr(sf)
    flags, opt, length = leg_options(c)
    scale = T.L * c.log(0.1, 10.)
    N = c.int(2, 5) if c.flag(0.8) else 10
    if N != 10:
        opt["N"] = N
    kw = look(c)
    c.note(options=opt, units=scale)
    ax = axes()
    c.require(PLOT.add_sf_leg(ax, sf, units=scale, **opt, **kw) is ax, "add_sf_leg does not return the axes")
    n = check_leg(c, sf, ax.drawn, scale, N, flags, kw, length)
    c.same("calls", len(ax.drawn), n)
    c.same("the leg afterwards", repr(sf), before)
    fwd = int(T.nseg * T.cut)
    c.nontrivial(0 < fwd < T.nseg)


@test("K37", "segments on both sides of the cut", 1200, 48000)
def high_fidelity_legs(c):
    T = Transfer(c, True)
    T.tof = min(T.tof, 2.5 * T.tau / DAY)
    ends = [orbit(c, 1., 1., hyperbolic=False) for _ in range(2)]
    # in units where the orbits are of size 1
    tof, thrust, isp = T.tof * DAY / T.tau, T.thrust / T.ms * T.tau / T.V, T.isp / T.V
    sf = pk.leg.sims_flanagan_hf(rvs=ends[0], ms=1., throttles=T.throttles, rvf=ends[1], mf=T.mf / T.ms, tof=tof, max_thrust=thrust, isp=isp,
                                 mu=1., cut=T.cut)
    sf.tol = 1e-12
    flags, opt, length = leg_options(c)
    flags.pop("show_midpoints"), opt.pop("show_midpoints", None)
    scale, N = c.log(0.1, 10.), c.int(2, 6)
    c.note(options=opt, units=scale, N=N)
    ax = axes()
    c.require(PLOT.add_sf_hf_leg(ax, sf, units=scale, N=N, **opt) is ax, "add_sf_hf_leg does not return the axes")
    h = core._direct("hf_history", [N, 1e-12] + flat(ends[0]) + [1.] + flat(ends[1]) + [T.mf / T.ms, tof, thrust, isp, 1., T.cut] + T.throttles)
    c.same("size of the history", len(h), 7 * N * T.nseg)
    fwd = int(T.nseg * T.cut)
    at = [[[q / scale for q in h[7 * (N * i + j):][:3]] for j in range(N)] for i in range(T.nseg)]
    # the trajectory that starts at either end, of every state there is
    trajectory = [[p for i in range(fwd) for p in at[i]], [p for i in range(T.nseg - 1, fwd - 1, -1) for p in at[i]]]
    plots = [d for d in ax.drawn if d[0] == "plot"]
    tips = [curve(d) for d in plots if "color" in d[2]]
    lines = [curve(d) for d in plots if "color" not in d[2]]
    tol = 1e-9 * max(norm(p) for q in at for p in q)
    c.same("trajectories", sorted(map(len, lines)), sorted(map(len, trajectory)))
    for want in trajectory:
        off = [float(np.max(np.linalg.norm(g - np.array(want), axis=1))) if len(want) else 0. for g in lines if len(g) == len(want)]
        c.close("trajectory", min(off), 0., tol)
    sc = [p for d in calls(ax, "scatter") for p in curve(d)]
    same_set(c, "grid points", sc, [p for q in at for p in q] if flags["show_gridpoints"] else [], tol)
    arrows = [list(map(float, z)) for d in calls(ax, "quiver") for z in zip(*[np.atleast_1d(np.array(w, float)) for w in d[1][:6]])]
    pairs = [(p, T.throttles[3 * i:3 * i + 3]) for i in range(T.nseg) for p in at[i]]
    if not flags["show_throttles"]:
        pairs = []
    same_set(c, "throttles", arrows, [p + u for p, u in pairs], tol + 1e-12)
    same_set(c, "tips of the throttles", [p for d in tips for p in d], [[a + length * b for a, b in zip(p, u)] for p, u in pairs], tol + 1e-12)
    c.nontrivial(0 < fwd < T.nseg)


@test("K37", "every case", 1800, 72000)
def low_thrust_problems(c):
    T = Transfer(c, False)
    c.need(T.tof * DAY < 3 * T.tau)
    u = T.udp(c)
    x = T.x()
    flags, opt, length = leg_options(c)
    scale = T.L * c.log(0.1, 10.)
    own = c.flag()
    kw = look(c)
    c.note(options=opt, units=scale)
    ax = axes()
    back = untouched(c, "plot", lambda y: u.plot(y, **({"ax": ax} if own else {}), units=scale, **opt, **kw), x)
    c.require(not own or back is ax, "plot does not return the axes")
    ax = back
    sf = copy.deepcopy(u.leg)
    pts = [p for d in calls(ax, "scatter") for p in curve(d)]
    if T.planets:
        s, f = T.p[0].eph(T.t0), T.p[1].eph(T.t0 + T.tof)
        want = [s[0], s[0], f[0], f[0]]
        c.same("the leg drawn", flat([sf.rvs, sf.rvf]), flat([s[0], [a + b for a, b in zip(s[1], T.dv[0])], f[0], [a + b for a, b in zip(f[1], T.dv[1])]]))
    else:
        want = [T.ends[0][0], T.ends[1][0]]
    want = [[q / scale for q in p] for p in want]
    same_set(c, "ends", pts, want, 1e-9 * max(norm(p) for p in want))
    rest = [d for d in ax.drawn if d[0] != "scatter"]
    if T.planets:
        orbits = [d for d in rest if d[0] == "plot" and not is_marker(d) and len(d[1][0]) == 60]
        c.same("orbits", len(orbits), 2)
        for p in T.p:
            days = p.period() / DAY
            some = [[q / scale for q in p.eph(days * i / 59)[0]] for i in range(60)]
            off = [float(np.max(np.linalg.norm(curve(d) - np.array(some), axis=1))) for d in orbits]
            c.close("orbit of a planet", min(off), 0., 1e-7 * max(norm(q) for q in some))
        rest = [d for d in rest if not any(d is o for o in orbits)]
    n = check_leg(c, sf, rest, scale, 10, flags, kw, length)
    c.same("calls", len(rest), n)
    c.nontrivial()


@test("K37", "more than one leg", 1800, 72000)
def gravity_assists(c):
    P = Problem(c)
    u = P.udp(c)
    x = P.encode(u)
    T = decode(P.encoding, x, P.Tmax)
    traj = Trajectory(P.seq, P.mu, P.t0, T, P.vinf * 1000, P.insertion)
    c.need(well_placed(traj, P.mu))
    N = c.int(2, 12) if c.flag(0.8) else 60
    L = max(norm(a[0]) for a in traj.at)
    scale = L * c.log(0.1, 10.)
    opt = {} if N == 60 else {"N": N}
    legs = list(range(P.n))
    if c.flag(0.4):
        legs = [i for i in legs if c.flag()] or [P.n - 1]
        opt["leg_ids"] = list(legs)
    if c.flag():
        opt.update(c="k", c_orbit="b")
    ax = axes() if c.flag() else None
    kw = {"alpha": 0.5} if c.flag() else {}
    c.note(options=opt, units=scale)
    back = untouched(c, "plot", lambda y: u.plot(y, ax=ax, units=scale, **opt, **kw), x)
    c.require(ax is None or back is ax, "plot does not return the axes")
    ax = back
    pts = [p for d in calls(ax, "scatter") for p in curve(d)]
    want = [[q / scale for q in a[0]] for a in traj.at]
    tol = 1e-7 * L / scale
    same_set(c, "planets and the Sun", pts, want + [[0., 0., 0.]], tol)
    lines = [curve(d) for d in calls(ax, "plot")]
    c.same("orbits and arcs", len(lines), P.n + 1 + len(legs))
    left = list(range(len(lines)))
    for i in legs:
        r, v = traj.at[i][0], traj.legs[i][0]
        h = cross(r, v)
        ev = [q / P.mu - w / norm(r) for q, w in zip(cross(v, h), r)]
        p = dot(h, h) / P.mu
        hits = []
        for k in left:
            g = lines[k] * scale
            size = float(np.max(np.linalg.norm(g, axis=1)))
            if len(g) == N and norm(sub(g[0], r)) < 1e-7 * L and norm(sub(g[-1], traj.at[i + 1][0])) < 1e-5 * L and all(
                    abs(norm(q) + dot(ev, q) - p) < 1e-6 * (p + size) and abs(dot(h, q)) < 1e-6 * norm(h) * size for q in g):
                hits.append(k)
        c.require(hits, "leg %d is not drawn" % i)
        left.remove(hits[0])
    for p in P.seq:
        days = p.period() / DAY
        some = np.array([[q / scale for q in p.eph(days * i / (N - 1))[0]] for i in range(N)])
        off = [float(np.max(np.linalg.norm(lines[k] - some, axis=1))) if len(lines[k]) == N else math.inf for k in left]
        k = int(np.argmin(off))
        c.close("orbit", off[k], 0., 1e-7 * float(np.max(np.linalg.norm(some, axis=1))))
        del left[k]
    c.nontrivial(P.n > 1)

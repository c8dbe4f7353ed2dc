"""K35: direct low-thrust problems: cost, constraints and gradient are those of the transfer that the chromosome describes."""
import contextlib
import copy
import io
import math
import pickle

import numpy as np
import pykep as pk
from pykep import core
from pykep.trajopt import direct_pl2pl, direct_point2point

from gen import *
from p_mga import chromosome, untouched, numbers, own
from pbt import test

DAY = 86400.


class Transfer:
    """A problem between two states or two planets, with the numbers it was made of."""

    def __init__(self, c, smooth):
        self.planets = c.flag()
        self.mu, self.L = 1.32712440018e20, 1.495978707e11
        if c.flag(0.3):
            self.L = c.log(1e6, 1e12)
            self.mu = self.L ** 3 / (5e6 * c.log(0.1, 10.)) ** 2
        self.V = math.sqrt(self.mu / self.L)
        self.tau = self.L / self.V
        self.nseg, self.cut = c.int(1, 8), c.rough(0., 1.)
        self.ms, self.isp = c.log(10., 1e4), c.log(100., 1e4)
        self.tof = c.log(0.1, 4.) * self.tau / DAY
        # at full thrust the velocity changes by a part of that of the planets, the mass not by all it is
        self.thrust = self.ms * self.V * c.log(1e-3, 0.3) / (self.tof * DAY)
        self.isp = max(self.isp, 2 * self.thrust * self.tof * DAY / (self.ms * 9.80665))
        self.scales = [self.ms, self.L, self.V] if c.flag() else [c.log(0.1, 10.) * q for q in (self.ms, self.L, self.V)]
        self.mf = self.ms * c.uniform(0.3, 1.)
        self.t0 = c.uniform(-3000., 3000.)
        self.throttles = []
        for _ in range(self.nseg):
            d, n = c.direction(), c.uniform(0.1 if smooth else 0., 1.3)
            if not smooth and c.flag(0.1):
                n = 0.
            self.throttles += [n * q for q in d]
        self.gradient = c.flag()
        self.bounds = {"tof": [self.tof * 0.5, self.tof * 1.5], "mf": [self.ms * 0.2, self.ms], "t0": [self.t0 - 10., self.t0 + 20.]}
        self.jpl = False
        if self.planets:
            self.p = []
            self.jpl = not smooth and self.L == 1.495978707e11 and c.flag()
            for k in range(2):
                if self.jpl:
                    self.p.append(pk.planet(pk.udpla.jpl_lp(c.pick(["earth", "venus", "mars", "jupiter"]))))
                    continue
                par = [self.L * c.log(0.6, 1.7), c.uniform(0., 0.4), c.uniform(0.01, 0.4), c.uniform(0., 6.), c.uniform(0., 6.), c.uniform(-3., 3.)]
                self.p.append(pk.planet(pk.udpla.keplerian(pk.epoch(float(int(self.t0))), par, self.mu, "P%d" % k)))
            self.vinf = [c.pick([0., self.V / 1000 * c.uniform(0., 0.3)]) for _ in range(2)]
            self.dv = [[self.V * c.uniform(-0.2, 0.2) for _ in range(3)] for _ in range(2)]
        else:
            self.ends = [orbit(c, self.mu, self.L, hyperbolic=False) for _ in range(2)]
        c.label("two planets" if self.planets else "two points")
        c.note(planets=self.planets, mu=self.mu, L=self.L, nseg=self.nseg, cut=self.cut, ms=self.ms, isp=self.isp, thrust=self.thrust,
               scales=self.scales, x=self.x())

    def x(self):
        if self.planets:
            return [self.t0, self.mf] + self.dv[0] + self.dv[1] + self.throttles + [self.tof]
        return [self.mf] + self.throttles + [self.tof]

    def udp(self, c):
        kw = dict(ms=self.ms, mu=self.mu, max_thrust=self.thrust, isp=self.isp, tof_bounds=self.bounds["tof"], mf_bounds=self.bounds["mf"],
                  nseg=self.nseg, cut=self.cut, mass_scaling=self.scales[0], r_scaling=self.scales[1], v_scaling=self.scales[2],
                  with_gradient=self.gradient)
        if self.planets:
            return direct_pl2pl(pls=self.p[0], plf=self.p[1], t0_bounds=self.bounds["t0"], vinfs=self.vinf[0], vinff=self.vinf[1], **kw)
        return direct_point2point(rvs=shaped(c, self.ends[0]), rvf=shaped(c, self.ends[1]), **kw)

    def fitness(self, x):
        """Cost, mismatch and inequalities, from the definition of the problem."""
        x = list(x)
        if self.planets:
            s, f = self.p[0].eph(x[0]), self.p[1].eph(x[0] + x[-1])
            s = [list(s[0]), [a + b for a, b in zip(s[1], x[2:5])]]
            f = [list(f[0]), [a + b for a, b in zip(f[1], x[5:8])]]
            mf, th = x[1], x[8:-1]
        else:
            s, f = self.ends
            mf, th = x[0], x[1:-1]
        y = core._direct("leg", flat(s) + [self.ms] + flat(f) + [mf, x[-1] * DAY, self.thrust, self.isp, self.mu, self.cut] + th)
        m, r, v = self.scales
        out = [-mf / m] + [a / b for a, b in zip(y[:7], [r] * 3 + [v] * 3 + [m])] + y[7:7 + self.nseg]
        if self.planets:
            out += [(dot(d, d) - (1000 * w) ** 2) / v ** 2 for d, w in ((x[2:5], self.vinf[0]), (x[5:8], self.vinf[1]))]
        return out

    def sizes(self, x):
        """How large the terms of each component are, before they cancel."""
        m, r, v = self.scales
        k = 6.
        if self.planets:
            k += max(norm(p.eph(t)[0]) for p, t in zip(self.p, (x[0], x[0] + x[-1]))) / self.L
        o = [abs(x[1 if self.planets else 0]) / m] + [k * self.L / r] * 3 + [k * self.V / v] * 3 + [2 * self.ms / m]
        o += [1. + dot(u, u) for u in zip(self.throttles[::3], self.throttles[1::3], self.throttles[2::3])]
        if self.planets:
            o += [(dot(d, d) + (1000 * w) ** 2 + 1e-30) / v ** 2 for d, w in zip(self.dv, self.vinf)]
        return o


@test("K35", "the throttles are not all 0", 19200, 800000)
def fitness(c):
    T = Transfer(c, False)
    u = T.udp(c)
    x = chromosome(c, T.x())
    want = T.fitness(x)
    c.need(all(math.isfinite(w) for w in want))
    got = untouched(c, "fitness", u.fitness, x)
    c.same("size", (len(got), u.get_nec(), u.get_nic()), (1 + 7 + T.nseg + 2 * T.planets, 7, T.nseg + 2 * T.planets))
    for i, (a, b, s) in enumerate(zip(got, want, T.sizes(T.x()))):
        c.close(["cost", "position", "velocity", "mass", "inequality"][0 if i == 0 else 1 if i < 4 else 2 if i < 7 else 3 if i == 7 else 4], a, b, 1e-10 * s)
    lb, ub = u.get_bounds()
    n = len(x)
    c.same("size of the bounds", (len(lb), len(ub)), (n, n))
    at = 1 if T.planets else 0
    c.same("bounds of the mass", [lb[at], ub[at]], T.bounds["mf"])
    c.same("bounds of the time", [lb[-1], ub[-1]], T.bounds["tof"])
    c.same("bounds of the throttles", [lb[-1 - 3 * T.nseg:-1], ub[-1 - 3 * T.nseg:-1]], [[-1] * (3 * T.nseg), [1] * (3 * T.nseg)])
    if T.planets:
        c.same("bounds of the launch", [lb[0], ub[0]], T.bounds["t0"])
        w = [1000 * q for q in T.vinf]
        c.same("bounds of the velocities", [lb[2:8], ub[2:8]], [[-w[0]] * 3 + [-w[1]] * 3, [w[0]] * 3 + [w[1]] * 3])
    c.same("has_gradient", u.has_gradient(), T.gradient)
    # nothing of one evaluation is left for the next
    keep = c.pick([0., 0.5, 0.8])  # of the numbers of the chromosome, between one evaluation and the next
    y = [q if c.flag(keep) else q * 0.9 for q in x]
    if c.flag(0.3):
        y = list(x)
        j = c.pick([0, n - 1, c.int(0, n - 1)])
        y[j] = 0.9 * x[j]
    c.note(next=y)
    first = flat(u.fitness(x))
    k = c.int(0, 3)
    if k == 0:
        c.same("fitness, after another one", flat(u.fitness(y)), flat(T.udp(c).fitness(y)))
    elif k == 1:
        c.same("gradient, after a fitness", flat(u.gradient(y)), flat(T.udp(c).gradient(y)))
    elif k == 2:
        with contextlib.redirect_stdout(io.StringIO()):
            u.pretty(y)
    else:
        u = copy.deepcopy(u) if c.flag() else pickle.loads(pickle.dumps(u))
    c.same("fitness, again", flat(u.fitness(x)), first)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        untouched(c, "pretty", u.pretty, x)
    text = out.getvalue()
    c.require(repr(u.leg) in text, "pretty without the leg: " + text[:300])
    if T.planets:
        c.require(all(p.get_name() in text for p in T.p), "pretty without the planets: " + text[:300])
        ns = numbers(text)
        for w in (T.t0, T.t0 + T.tof, T.tof):
            c.require(any(abs(q - w) < 1e-4 for q in ns), "pretty without the day %r: %s" % (w, text[:300]))
        tell = [(w, 1e-4) for w in (T.t0, T.t0 + T.tof, T.tof)]
        for d in T.dv:
            tell += [(q / 1000, 1e-8 + 1e-12 * norm(d)) for q in [norm(d)] + list(d)]
        for w in (x[0], x[0] + x[-1]):
            c.require(str(pk.epoch(w)) in text, "pretty without the date %s: %s" % (pk.epoch(w), text[:500]))
        in_order(c, "pretty", text, tell + [(T.mf, 1e-12 * T.mf)])
    c.nontrivial(any(T.throttles))


@test("K35", "every case", 4800, 200000)
def gradient(c):
    T = Transfer(c, True)
    u = T.udp(c)
    x0 = T.x()
    n, rows = len(x0), 8 + T.nseg + 2 * T.planets
    want = T.fitness(x0)
    c.need(all(math.isfinite(w) for w in want))
    x = chromosome(c, x0)
    got = flat(untouched(c, "gradient", u.gradient, x))
    sparsity = [tuple(int(q) for q in s) for s in u.gradient_sparsity()]
    c.same("sizes of gradient and sparsity", len(got), len(sparsity))
    c.require(len(set(sparsity)) == len(sparsity) and all(0 <= i < rows and 0 <= j < n for i, j in sparsity), "sparsity: entries twice or outside")
    c.require(sparsity == sorted(sparsity), "sparsity: the entries are not in order")
    J = {s: g for s, g in zip(sparsity, got)}
    scale = [T.tau / DAY] + [T.ms] + [T.V] * 6 if T.planets else [T.ms]
    scale += [1.] * (3 * T.nseg) + [T.tau / DAY]
    size = T.sizes(x0)
    days = 4e-16 * (abs(T.t0) + T.tof) * DAY / T.tau if T.planets else 0.

    def slope(j, h):
        d = [0.] * rows
        for k, w in ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60)):
            f = [T.fitness(x0[:j] + [x0[j] + s * k * h] + x0[j + 1:]) for s in (1, -1)]
            d = [a + w * (p - m) / h for a, p, m in zip(d, f[0], f[1])]
        return d
    for j in range(n):
        h = 4e-3 * scale[j] * min(1., T.tof * DAY / T.tau)
        h = min(h, 0.05 * T.mf) if scale[j] == T.ms else h
        a, b = slope(j, h), slope(j, h / 2)
        for i in range(rows):
            g = J.get((i, j), 0.)
            tol = 2 * abs(a[i] - b[i]) + (1e-12 + 10 * days) * size[i] * 10 / h + 1e-9 * size[i] / scale[j]
            if (i, j) not in J:
                c.close("entry left out of the sparsity", 0., b[i], tol)
            else:
                c.close("d%s/d%s" % ("cost" if i == 0 else "mismatch" if i < 8 else "inequality",
                                     "t" if j == n - 1 or T.planets and j == 0 else "mass" if scale[j] == T.ms and j < 2 else "V" if T.planets and j < 8 else "throttle"),
                        g, b[i], tol)
    c.nontrivial()

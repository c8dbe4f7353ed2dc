"""K34: multiple gravity assist problems: the cost is that of the trajectory the chromosome encodes, in every encoding."""
import contextlib
import copy
import io
import math

import numpy as np
import pykep as pk
from pykep import core
from pykep.trajopt import mga

from gen import *
from pbt import test

DAY = 86400.
BODIES = ["venus", "earth", "mars", "jupiter", "saturn", "mercury"]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


class Planets:
    """Planets of the same central body: (planet, position and velocity at a day, mu_self, safe radius) of each."""

    def __init__(self, c, n):
        self.list = []
        kind = c.int(0, 2)
        self.mu, self.L = 1.32712440018e20, 1.495978707e11
        c.label(["solar system", "Keplerian planets", "planets defined in Python"][kind])
        if kind:
            if c.flag(0.3):
                self.L = c.log(1e6, 1e12)
                self.mu = self.L ** 3 / (5e6 * c.log(0.1, 10.)) ** 2
        self.days = 30. * math.sqrt(self.L ** 3 / self.mu) / 5e6
        for i in range(n):
            if kind == 0:
                p = pk.planet(pk.udpla.jpl_lp(c.pick(BODIES)))
                self.mu = p.get_mu_central_body()
            else:
                par = [self.L * c.log(0.5, 4.), c.uniform(0., 0.3), c.uniform(0.01, 0.3), c.uniform(0., 6.), c.uniform(0., 6.), c.uniform(-3., 3.)]
                v2 = self.mu / self.L
                rs = self.L * c.log(1e-6, 1e-4)
                ms = v2 * rs * c.log(1e-2, 1.)
                u = pk.udpla.keplerian(pk.epoch(0.), par, self.mu, "P%d" % i, [ms, rs, rs * c.uniform(1., 2.)])
                if kind == 2:
                    u = own(u)
                p = pk.planet(u)
            self.list.append(p)


class own:
    def __init__(self, u):
        self.p = pk.planet(u)

    def eph(self, t):
        return self.p.eph(t)

    def get_mu_central_body(self):
        return self.p.get_mu_central_body()

    def get_mu_self(self):
        return self.p.get_mu_self()

    def get_safe_radius(self):
        return self.p.get_safe_radius()

    def get_radius(self):
        return self.p.get_radius()

    def get_name(self):
        return self.p.get_name()


def flyby(a, b, mu, rp):
    """The impulse after a flyby that can turn the velocity no more than at the safe radius."""
    A, B = norm(a), norm(b)
    turn = math.atan2(norm(cross(a, b)), dot(a, b)) - 2 * math.asin(1 / (1 + rp / mu * A * A))
    return math.sqrt(max(0., A * A + B * B - 2 * A * B * math.cos(turn))) if turn > 0 else abs(A - B)


class Trajectory:
    """The trajectory through the planets at the given days and what it costs."""

    def __init__(self, seq, mu, t0, T, vinf, insertion):
        self.days = [math.fsum([t0] + T[:i]) for i in range(len(T) + 1)]
        at = [p.eph(t) for p, t in zip(seq, self.days)]
        self.at, self.legs = at, []
        for i in range(len(T)):
            x = core._direct("lambert", list(at[i][0]) + list(at[i + 1][0]) + [T[i] * DAY, mu, 0., 0.])
            assert x[0] == 0
            self.legs.append((x[1:4], x[4:7]))
        self.dv0 = norm(sub(self.legs[0][0], at[0][1]))
        self.launch = max(0., self.dv0 - vinf)
        self.flybys = [flyby(sub(self.legs[i - 1][1], at[i][1]), sub(self.legs[i][0], at[i][1]), seq[i].get_mu_self(),
                             seq[i].get_safe_radius()) for i in range(1, len(T))]
        self.arrival = norm(sub(self.legs[-1][1], at[-1][1]))
        if insertion:
            e, rp = insertion
            ms = seq[-1].get_mu_self()
            self.arrival = abs(math.sqrt(self.arrival ** 2 + 2 * ms / rp) - math.sqrt(ms * (1 + e) / rp))
        self.total = math.fsum([self.launch] + self.flybys + [self.arrival])
        self.scale = sum(norm(v) + norm(a) for (v, _), (_, a) in zip(self.legs, at)) + norm(self.legs[-1][1]) + norm(at[-1][1])


def near(seq, mu, t0, T, vinf, insertion):
    """The trajectory, and how far its cost may be off: the cost of slightly different times, and of rounding."""
    a = Trajectory(seq, mu, t0, T, vinf, insertion)
    d, s = 1e-7, 0.
    for i in range(len(T)):
        s += abs(Trajectory(seq, mu, t0, T[:i] + [T[i] * (1 + d)] + T[i + 1:], vinf, insertion).total - a.total)
    s += abs(Trajectory(seq, mu, t0 + d * sum(T), T, vinf, insertion).total - a.total)
    return a, 1e-5 * s + 1e-7 * a.scale


def chromosome(c, x):
    """The same chromosome as a list, a tuple or an array."""
    return [list, tuple, np.array][c.int(0, 2)](x)


def untouched(c, what, f, *args):
    """f(*args), which leaves its arguments as they were."""
    before = copy.deepcopy([flat(a) for a in args])
    r = f(*args)
    c.same(what + " changed its argument", [flat(a) for a in args], before)
    return r


class Problem:
    def __init__(self, c, encodings=("direct", "alpha", "eta")):
        n = c.int(1, 4)
        P = Planets(c, n + 1)
        self.seq, self.mu, self.n = P.list, P.mu, n
        self.T = [c.log(1., 20.) * P.days for _ in range(n)]
        self.t0 = c.uniform(-3000., 3000.)
        if c.flag(0.1):
            self.t0 = float(round(self.t0))
            self.T = [max(1., float(round(t))) for t in self.T]
        self.vinf = c.pick([0., 2.5, c.uniform(0., 10.)])
        self.insertion = None
        if c.flag(0.4):
            self.insertion = (c.uniform(0., 0.99), self.seq[-1].get_safe_radius() * c.uniform(1., 20.))
        self.multi = c.flag(0.3)
        self.encoding = c.pick(list(encodings))
        self.Tmax = sum(self.T) * c.uniform(1.01, 2.)
        self.t0s = [self.t0 - c.uniform(0., 500.), self.t0 + c.uniform(0., 500.)]
        self.limits = [[t * c.uniform(0.3, 1.), t * c.uniform(1., 3.)] for t in self.T]
        self.total = [sum(self.T) * c.uniform(0.5, 1.), sum(self.T) * c.uniform(1., 2.)]
        c.label(self.encoding)
        c.note(planets=[p.get_name() for p in self.seq], t0=self.t0, T=self.T, vinf=self.vinf, insertion=self.insertion,
               multi=self.multi, encoding=self.encoding, Tmax=self.Tmax)

    def udp(self, c, encoding=None):
        encoding = encoding or self.encoding
        tof = {"direct": self.limits, "alpha": self.total, "eta": self.Tmax}[encoding]
        t0s = list(self.t0s)
        for i in range(2):
            if c.flag(0.3):
                t0s[i] = pk.epoch(t0s[i])
        kw = {"vinf": self.vinf, "multi_objective": self.multi, "tof_encoding": encoding}
        if self.insertion:
            kw.update(orbit_insertion=True, e_target=self.insertion[0], rp_target=self.insertion[1])
        kinds = [type(t) for t in t0s]
        u = mga(self.seq, t0s, tof, **kw)
        c.same("the constructor changed t0", [type(t) for t in t0s], kinds)
        return u

    def encode(self, u, encoding=None):
        """The chromosome of the times, from the definition of the encodings."""
        encoding = encoding or self.encoding
        if encoding == "direct":
            return [self.t0] + self.T
        if encoding == "alpha":
            s = sum(self.T)
            return [self.t0, s] + [math.exp(-t / s) for t in self.T]
        left, x = self.Tmax, [self.t0]
        for t in self.T:
            x.append(t / left)
            left -= t
        return x


def decode(encoding, x, Tmax):
    if encoding == "direct":
        return list(x[1:])
    if encoding == "alpha":
        ls = [math.log(a) for a in x[2:]]
        return [x[1] * l / math.fsum(ls) for l in ls]
    T, left = [], Tmax
    for n in x[1:]:
        T.append(left * n)
        left -= T[-1]
    return T


def well_placed(traj, mu):
    """No arc of about half a turn, where the plane of the transfer is lost, and none much faster than escape."""
    ok = True
    for (v0, v1), (r0, _), (r1, _) in zip(traj.legs, traj.at, traj.at[1:]):
        ok = ok and dot(v0, v0) < 12 * mu / norm(r0) and dot(v1, v1) < 12 * mu / norm(r1)
    for i in range(len(traj.legs)):
        a, b = traj.at[i][0], traj.at[i + 1][0]
        ok = ok and norm(cross(a, b)) > 0.03 * norm(a) * norm(b) and norm(sub(a, b)) > 1e-2 * norm(a) \
            and abs(cross(a, b)[2]) > 1e-3 * norm(a) * norm(b)
    return ok


def printed(u, x):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        u.pretty(x)
    return out.getvalue()


@test("K34", "at least one flyby", 12000, 600000)
def costs(c):
    P = Problem(c)
    u = P.udp(c)
    x = chromosome(c, P.encode(u))
    T = decode(P.encoding, list(x), P.Tmax)
    want, tol = near(P.seq, P.mu, P.t0, T, P.vinf * 1000, P.insertion)
    c.need(well_placed(want, P.mu))
    got = untouched(c, "fitness", u.fitness, x)
    c.same("objectives", (len(got), u.get_nobj()), (1 + P.multi, 1 + P.multi))
    c.close("cost", got[0], want.total, tol)
    if P.multi:
        c.close("time of flight", got[1], math.fsum(T), 1e-13 * P.n * max(P.Tmax, got[1]))
    # nothing of one evaluation is left for the next, whatever the two have in common
    y = [q if c.flag(0.6) else q * 0.97 for q in x]
    c.note(next=y)
    after, fresh = outcome(lambda: flat(u.fitness(y))), outcome(lambda: flat(P.udp(c).fitness(y)))
    c.same("cost, after another one", after, fresh)
    c.same("cost, again", u.fitness(list(x))[0], got[0])
    text = untouched(c, "pretty", lambda y: printed(u, y), x)
    last = text.strip().splitlines()[-1].split()
    c.require(last[:2] == ["Total", "DV:"], "pretty does not end with the cost: " + text[-200:])
    c.close("cost printed", numbers(last[-1])[0], got[0], 1e-12 * want.scale)
    for p in P.seq:
        c.require(p.get_name() in text, "pretty does not name " + p.get_name())
    day, speed = 1e-9 * (abs(P.t0) + P.Tmax), tol + 1e-5 * want.scale
    tell = [(P.t0, day)] + [(q, speed) for q in want.legs[0][0] + [want.dv0, want.launch]]
    for t, dv in zip(want.days[1:], want.flybys):
        tell += [(t, day), (dv, speed)]
    tell += [(want.days[-1], day)] + [(q, speed) for q in want.legs[-1][1] + [want.arrival]] + [(t, day) for t in T]
    in_order(c, "pretty", text, tell)
    ints = P.t0 == round(P.t0) and P.encoding == "direct" and all(t == round(t) for t in P.T)
    if ints:
        y = chromosome(c, [int(z) for z in x])
        c.same("cost of whole days", u.fitness(y), got)
        c.label("whole days")
    c.nontrivial(P.n > 1)


@test("K34", "at least two legs", 12000, 600000)
def encodings(c):
    P = Problem(c, encodings=["direct"])
    us = {e: P.udp(c, e) for e in ("direct", "alpha", "eta")}
    d = [P.t0] + P.T
    # from times to the encodings
    x = chromosome(c, d)
    alpha = untouched(c, "direct2alpha", us["alpha"].direct2alpha if c.flag() else mga.direct2alpha, x)
    eta = untouched(c, "direct2eta", us["eta"].direct2eta, x)
    c.same("sizes", (len(alpha), len(eta)), (P.n + 2, P.n + 1))
    c.same("launch", (alpha[0], eta[0]), (P.t0, P.t0))
    s = math.fsum(P.T)
    c.close("alpha: total time", alpha[1], s, 1e-14 * s)
    for k, (back, tol) in {"alpha": (decode("alpha", list(alpha), P.Tmax), 1e-14 * s), "eta": (decode("eta", list(eta), P.Tmax), 1e-14 * P.Tmax)}.items():
        for a, b in zip(back, P.T):
            c.close(k + " decoded", a, b, P.n * tol)
    # and back
    y = untouched(c, "alpha2direct", us["alpha"].alpha2direct if c.flag() else mga.alpha2direct, chromosome(c, alpha))
    z = untouched(c, "eta2direct", us["eta"].eta2direct, chromosome(c, eta))
    c.same("sizes after a round trip", (len(y), len(z)), (P.n + 1, P.n + 1))
    for a, b, w in zip(y, z, d):
        c.close("alpha round trip", a, w, 1e-14 * P.n * s if w is not d[0] else 0.)
        c.close("eta round trip", b, w, 1e-14 * P.n * P.Tmax if w is not d[0] else 0.)
    # any chromosome within the bounds decodes to times that add up to what the encoding promises
    for e in ("alpha", "eta"):
        lb, ub = us[e].get_bounds()
        x = [c.uniform(a, b) for a, b in zip(lb, ub)]
        T = list((us[e].alpha2direct if e == "alpha" else us[e].eta2direct)(np.array(x)))
        for a, b in zip(T[1:], decode(e, x, P.Tmax)):
            c.close(e + " decoded by pykep", a, b, 1e-13 * P.n * (P.Tmax + x[1]))
        c.require(all(t > 0 for t in T[1:]), "a time of flight that is not positive: %s" % T)
        if e == "alpha":
            c.close("the times add up", math.fsum(T[1:]), x[1], 1e-13 * x[1])
        else:
            c.require(math.fsum(T[1:]) < P.Tmax, "the times add up to more than allowed: %s" % T)
        c.same("launch kept", T[0], x[0])
    c.raises("eta2direct of another encoding", ValueError, lambda: us[c.pick(["direct", "alpha"])].eta2direct(eta))
    c.raises("direct2eta of another encoding", ValueError, lambda: us[c.pick(["direct", "alpha"])].direct2eta(d))
    # the same trajectory costs the same in every encoding
    want, tol = near(P.seq, P.mu, P.t0, P.T, P.vinf * 1000, P.insertion)
    c.need(well_placed(want, P.mu))
    f = {"direct": us["direct"].fitness(d), "alpha": us["alpha"].fitness(alpha), "eta": us["eta"].fitness(eta)}
    for e in ("alpha", "eta"):
        c.close("cost in encoding " + e, f[e][0], f["direct"][0], tol)
        if P.multi:
            c.close("time in encoding " + e, f[e][1], f["direct"][1], 1e-13 * P.n * P.Tmax)
    c.nontrivial(P.n > 1)


@test("K34", "at least two legs", 12000, 600000)
def spacecraft(c):
    P = Problem(c)
    u = P.udp(c)
    x = chromosome(c, P.encode(u))
    T = decode(P.encoding, list(x), P.Tmax)
    traj = Trajectory(P.seq, P.mu, P.t0, T, P.vinf * 1000, P.insertion)
    c.need(well_placed(traj, P.mu))
    sc = untouched(c, "to_planet", u.to_planet, x)
    c.same("name", sc.get_name(), "MGA spacecraft")
    i = c.int(0, P.n - 1)
    k = c.int(0, 3)
    where = c.uniform(0., 1.) if k else c.pick([0., 1.])
    a, b = traj.days[i], traj.days[i + 1]
    t = min(b, max(a, a + where * (b - a)))
    if k == 0:
        t = a if where == 0. else b
        # the day of the encounter as pykep counts it, from its end of the rounding
        e = np.cumsum([P.t0] + list(T))[i + int(where)]
        t = float(e) if c.flag(0.7) else t
    c.note(leg=i, day=t)
    R, V = max(norm(s[0]) for s in traj.at), max(max(norm(l[0]), norm(l[1])) for l in traj.legs)
    # how the arc reacts to the rounding of its times and of its ends
    slack = 1e-14 * (abs(t) + sum(T)) * DAY * P.n

    def arc(t, j):
        s = core._direct("propagate_lagrangian", list(traj.at[j][0]) + list(traj.legs[j][0]) + [(t - traj.days[j]) * DAY, P.mu, 0.])
        return s[:3], s[3:6]
    if k == 0 and abs(t - (a, b)[int(where)]) < 1e-9:
        got = outcome(lambda: sc.eph(t))
        edge = i + int(where)
        if got[0] == "raised":
            # only a day that rounding puts outside of the flight
            c.require(edge == P.n or edge == 0 and t != P.t0, "no ephemerides at encounter %d: %s" % (edge, got))
            sc.eph(t + (1e-6 if edge == 0 else -1e-6) * min(T))
            c.label("just outside")
        else:
            for q, w in zip(got[1][0], traj.at[edge][0]):
                c.close("position at an encounter", q, w, 1e-9 * R + 10 * V * slack)
            # the velocity of the arc that ends or of the one that starts there
            offs = []
            if edge > 0:
                offs.append(norm(sub(got[1][1], traj.legs[edge - 1][1])))
            if edge < P.n:
                offs.append(norm(sub(got[1][1], traj.legs[edge][0])))
            c.close("velocity at an encounter", min(offs), 0., 1e-7 * V)
        c.label("at an encounter")
    elif k == 3 and c.flag(0.3):
        late = c.flag()
        d = c.log(1e-6, 1e4)
        t = traj.days[-1] + d if late else traj.days[0] - d
        got = outcome(lambda: sc.eph(t))
        c.require(got[:2] == ("raised", "ValueError"), "ephemerides %g days %s: %s" % (d, "after arrival" if late else "before launch", got))
        e = np.cumsum([P.t0] + list(T))
        ok = any(str(y) in got[2] for y in (e[-1 if late else 0], float(e[-1 if late else 0])))
        ok = ok or any(abs(w - e[-1 if late else 0]) < 1e-6 and abs(w - t) > 0 for w in numbers(got[2]))
        c.require(ok, "the message does not tell the day of the %s: %s" % ("arrival" if late else "launch", got[2]))
        c.label("outside")
    else:
        c.need(1e-9 < where < 1 - 1e-9)
        got = sc.eph(t)
        want = arc(t, i)
        for q, w in zip(got[0], want[0]):
            c.close("position", q, w, 1e-9 * R + 10 * V * slack)
        for q, w in zip(got[1], want[1]):
            c.close("velocity", q, w, 1e-8 * V + 10 * V * V / R * slack)
        ts = [t, traj.days[0] + 0.5 * T[0]]
        c.same("eph_v", sc.eph_v(ts), [flat(sc.eph(y)) for y in ts])
    n = c.pick([-1, 1])
    y = list(x)[:-1] if n < 0 else list(x) + [0.5]
    c.raises("chromosome of the wrong length", ValueError, lambda: u.to_planet(y))
    c.nontrivial(P.n > 1)


@test("K34", "every case", 6000, 180000)
def bounds_and_refusals(c):
    P = Problem(c)
    u = P.udp(c)
    lb, ub = u.get_bounds()
    c.same("sizes of the bounds", (len(lb), len(ub)), (P.n + 1 + (P.encoding == "alpha"),) * 2)
    c.close("launch: from", lb[0], P.t0s[0], 1e-10)
    c.close("launch: to", ub[0], P.t0s[1], 1e-10)
    x = P.encode(u)
    k = 1
    if P.encoding == "direct":
        c.same("times", [lb[1:], ub[1:]], [[l[0] for l in P.limits], [l[1] for l in P.limits]])
    else:
        if P.encoding == "alpha":
            c.same("total time", [lb[1], ub[1]], P.total)
            k = 2
        c.require(all(0 < a < b < 1 for a, b in zip(lb[k:], ub[k:])), "bounds of the genes: %s %s" % (lb, ub))
        c.require(all(a <= 1e-2 and b >= 1 - 1e-2 for a, b in zip(lb[k:], ub[k:])), "bounds that leave out trajectories: %s %s" % (lb, ub))
    # what the constructor refuses
    args = dict(seq=P.seq, t0=P.t0s, tof={"direct": P.limits, "alpha": P.total, "eta": P.Tmax}[P.encoding], vinf=P.vinf, tof_encoding=P.encoding)
    w = c.int(0, 5)
    c.note(refused=w)
    if w == 0:
        other = pk.planet(pk.udpla.keplerian(pk.epoch(0.), [1e11, 0.1, 0.1, 0., 0., 0.], P.mu * 1.5))
        j = c.int(0, P.n)
        args["seq"] = [other if q == j else p for q, p in enumerate(P.seq)]
        c.raises("planets of two central bodies", ValueError, lambda: mga(**args))
    elif w == 1:
        args["tof_encoding"] = c.pick(["", "Direct", "beta", "etas", "alph"])
        c.raises("unknown encoding", ValueError, lambda: mga(**args))
    elif w == 2:
        args.update(orbit_insertion=True, e_target=0.5, rp_target=1e7)
        args[c.pick(["e_target", "rp_target"])] = None
        c.raises("insertion without its target", ValueError, lambda: mga(**args))
    elif w == 3:
        if P.encoding == "eta":
            args["tof"] = c.pick([None, [1., 2.], {}])
        elif P.encoding == "alpha":
            args["tof"] = c.pick([3., (1., 2.), [1., 2., 3.], [1.], None])
        else:
            args["tof"] = c.pick([3., P.limits[:-1], P.limits + [[1., 2.]], [[2., 1.]] * P.n, [1.] * P.n, [[1., 2., 3.]] * P.n, tuple(P.limits)])
        c.note(tof=args["tof"])
        c.raises("wrong times of flight", TypeError, lambda: mga(**args))
    elif w == 4:
        # two problems made with the default arguments do not touch each other
        a = mga()
        before = a.get_bounds()
        b = mga()
        c.same("defaults", b.get_bounds(), before)
        c.same("default bounds", before, ([0., 30., 200.], [1000., 200., 300.]))
    else:
        v = copy.deepcopy(u)
        c.same("a copy", v.fitness(x), u.fitness(x))
    c.nontrivial()


GYM = {"cassini1": ("direct", "P1"), "cassini1_a": ("alpha", "P2"), "cassini1_n": ("eta", "P3")}


@test("K34", "every case", 4500, 225000)
def benchmark(c):
    name = c.pick(sorted(GYM))
    u = getattr(pk.trajopt.gym, name)
    encoding, number = GYM[name]
    lb, ub = u.get_bounds()
    bodies = ["earth", "venus", "venus", "earth", "jupiter", "saturn"]
    seq = [pk.planet(pk.udpla.jpl_lp(b)) for b in bodies]
    x = [c.uniform(a, b) for a, b in zip(lb, ub)]
    c.note(problem=name, x=x)
    c.same("launch window and size", (lb[0], ub[0], len(lb)), (-1000., 0., 7 if encoding == "alpha" else 6))
    if encoding == "direct":
        c.same("times", (lb[1:], ub[1:]), ([30, 100, 30, 400, 1000], [400, 470, 400, 2000, 6000]))
    elif encoding == "alpha":
        c.same("total time", (lb[1], ub[1]), (4000., 7000.))
    T = decode(encoding, list(x), 7000.)
    c.need(min(T) > 1.)
    mu = seq[0].get_mu_central_body()
    want, tol = near(seq, mu, x[0], T, 3000., (0.98, 108950000.))
    c.need(well_placed(want, mu))
    c.close("cost", u.fitness(x)[0], want.total, tol)
    c.same("objectives", u.get_nobj(), 1)
    c.require(number in u.get_name() and encoding in u.get_name() and repr(u) == u.get_name(), "name: " + u.get_name())
    info = u.get_extra_info()
    c.require(number in info and encoding in info and "Planetary sequence" in info, "extra info: " + info)
    c.require(info.count("venus") == 2 and info.count("earth") == 2 and "saturn" in info, "extra info: " + info)
    c.nontrivial()

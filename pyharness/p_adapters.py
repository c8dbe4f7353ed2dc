"""K36: planets from two-line elements and from SPICE kernels, and pykep's SPICE utilities.

The packages they use are not here; stand-ins give made-up ephemerides (fakes/), which the tests compute on their own."""
import copy
import datetime
import gc
import math
from pathlib import Path

import numpy as np
import pykep as pk
import spiceypy

from gen import *
from pbt import test
from p_planets import when

DAY = 86400.
J2000 = datetime.datetime(2000, 1, 1)


def checksum(line):
    return str(sum(int(ch) if ch.isdigit() else ch == "-" for ch in line) % 10)


def lines(c):
    """Two-line elements, with their epoch, inclination, mean anomaly and revolutions a day."""
    number = c.pick(["33773", "00005", "99999", "25544"])
    year, day = c.int(1957, 2056), c.uniform(1., 366.)
    day = round(day, 8)
    if c.flag(0.2):
        day = c.pick([1., 1.5, 365.99999999, 2.00000001])
    incl, mo, n = round(c.uniform(0., 180.), 4), round(c.uniform(0., 360.), 4), round(c.uniform(1., 16.), 8)
    a = "1 %sU 97051L   %02d%012.8f  .00002095  00000+0  65841-3 0  999" % (number, year % 100, day)
    b = "2 %s %8.4f  33.1145 0009956 224.5064 %8.4f %11.8f56577" % (number, incl, mo, n)
    at = (datetime.datetime(year, 1, 1) - J2000).days + (day - 1.)
    return a + checksum(a), b + checksum(b), number, at, incl, mo, n


@test("K36", "every case", 30000, 1500000)
def two_line_elements(c):
    a, b, number, at, incl, mo, n = lines(c)
    c.note(line1=a, line2=b)
    u = pk.udpla.tle(a, b)
    dt = c.uniform(-30., 30.)
    if c.flag(0.3):  # at and about midnight and noon
        dt = math.floor(dt * 2) / 2 - (at % 1.) + c.pick([0., 1e-6, -1e-6, 1e-9, -1e-9])
    t = at + dt

    def want(t):
        w = n * 2 * math.pi / DAY
        axis = (398600.8 / w ** 2) ** (1 / 3) * 1000.
        x = math.radians(mo) + w * (t - at) * DAY
        i = math.radians(incl)
        cx, sx, ci, si = math.cos(x), math.sin(x), math.cos(i), math.sin(i)
        return [axis * cx, axis * sx * ci, axis * sx * si], [-w * axis * sx, w * axis * cx * ci, w * axis * cx * si], axis, w

    def near(what, got, t):
        r, v, axis, w = want(t)
        for k in range(3):
            # a Julian date counts to 40 microseconds
            c.close(what + ": position", got[0][k], r[k], axis * (w * 4e-4 + 1e-9))
            c.close(what + ": velocity", got[1][k], v[k], axis * w * (w * 4e-4 + 1e-9))
    near("eph", u.eph(t), t)
    p = pk.planet(u)
    w, s = when(c, t)
    near("eph of the planet", p.eph(w), s)
    ts = [t] + [at + c.uniform(-30., 30.) for _ in range(c.int(0, 3))]
    k = c.int(0, 2)
    for z, name in ((u.eph_v([list, tuple, np.array][k](ts)), "eph_v"), (p.eph_v(ts), "eph_v of the planet")):
        c.same(name + ": shape", np.shape(z), (len(ts), 6))
        for q, row in zip(ts, z):
            near(name, [row[:3], row[3:]], q)
    c.same("no days", np.shape(p.eph_v([])), (0, 6))
    c.close("ref_epoch", u.ref_epoch.mjd2000, at, 2e-9)
    c.same("numbers", (u.get_mu_central_body(), p.get_mu_central_body(), p.get_mu_self(), p.get_radius()), (pk.MU_EARTH, pk.MU_EARTH, -1., -1.))
    c.same("name", p.get_name(), number.strip() + " - SGP4")
    info = p.get_extra_info()
    c.require(a in info and b in info and info.index(a) < info.index(b), "extra info without the lines: " + info)
    # what the planet computes from its states and the attraction of the Earth
    r, v, axis, _ = want(s)
    e = dot(v, v) / 2 - pk.MU_EARTH / norm(r)
    c.close("period", p.period(w), 2 * math.pi * math.sqrt((-pk.MU_EARTH / 2 / e) ** 3 / pk.MU_EARTH), 1e-6 * 2 * math.pi / (n * 2 * math.pi / DAY))
    c.nontrivial()


BODIES = [k for k in spiceypy.names]
FRAMES = [k for k in spiceypy.frames]


def kernel():
    return str(Path(pk.__path__[0]) / "data" / "de440s.bsp")


def state_of(body, frame, obs, t):
    x = spiceypy.one(body, (t - 0.5) * DAY, frame, obs) * 1000
    return x.tolist()


@test("K36", "an ephemeris is asked for", 30000, 1500000)
def spice_planets(c):
    text = []
    try:
        spice_history(c, text)
    finally:
        c.note(steps=text)


def spice_history(c, text):
    del spiceypy.kernels[:]
    live = []  # (object, made as, loads the kernel)
    asked = 0
    for step in range(c.int(1, 12)):
        k = c.int(0, 6)
        body, frame, obs = c.pick(BODIES), c.pick(FRAMES), c.pick(BODIES)
        if k <= 1:
            bad = c.int(0, 24)
            if bad == 1:
                body = c.pick(["VULCAN", "", "earth"])
            elif bad == 2:
                frame = c.pick(["ECLIP", "", "j2000"])
            elif bad == 3:
                obs = "NOWHERE"
            if k == 0:
                n = c.int(0, 3)
                args, kw = [body, frame, obs][:n], {}
                for i, (q, d) in enumerate((("body", "EARTH BARYCENTER"), ("ref_frame", "ECLIPJ2000"), ("obs", "SSB"))):
                    if i >= n and c.flag():
                        kw[q] = (body, frame, obs)[i]
                    elif i >= n:
                        body, frame, obs = [d if j == i else x for j, x in enumerate((body, frame, obs))]
                make = lambda: pk.udpla.de440s(*args, **kw)
            else:
                make = lambda: pk.udpla.spice(body, frame, obs) if c.flag() else pk.udpla.spice(obs=obs, body=body, ref_frame=frame)
            text.append("%s(%s, %s, %s)" % (("de440s", "spice")[k], body, frame, obs))
            if body not in spiceypy.names or obs not in spiceypy.names or frame not in spiceypy.frames:
                r = outcome(make)
                c.require(r[0] == "raised", "%s is accepted" % text[-1])
                if body in spiceypy.names and obs in spiceypy.names:
                    c.same("exception", r[1], "NameError")
                del r
                c.label("refused")
            else:
                live.append((make(), (body, frame, obs), k == 0))
        elif k == 2 and live:
            i = c.int(0, len(live) - 1)
            text.append("drop %d" % i)
            del live[i]
        elif k == 3 and live:
            x = c.pick(live)
            live.append((copy.copy(x[0]) if isinstance(x[0], pk.planet) else pk.planet(x[0]), x[1], x[2]))
            text.append("planet")
            # the planet keeps the object alive
            i = [j for j in range(len(live)) if live[j][0] is x[0]][0]
            if c.flag() and not isinstance(x[0], pk.planet):
                del live[i]
            del x
        elif k == 4:
            names = [c.pick(["a.bsp", "b.tls", "dir/c.tpc"]) for _ in range(c.int(1, 3))]
            pk.utils.load_spice_kernels(names if len(names) > 1 or c.flag() else names[0])
            text.append("load %s" % names)
            for q in names:
                c.require(q in spiceypy.kernels, "load_spice_kernels leaves out " + q)
            pk.utils.unload_spice_kernels(names if c.flag() or len(names) > 1 else names[0])
            for q in names:
                c.require(q not in spiceypy.kernels, "unload_spice_kernels leaves " + q)
        elif live:
            x, (body, frame, obs), own = c.pick(live)
            t = c.uniform(-2e4, 2e4)
            text.append("eph")
            if not spiceypy.kernels:
                c.require(outcome(lambda: x.eph(t))[0] == "raised", "an ephemeris without a kernel")
                c.label("no kernel")
            else:
                asked += 1
                w, s = when(c, t) if isinstance(x, pk.planet) else (t, t)
                got = flat([list(q) for q in x.eph(w)])
                for a, b in zip(got, state_of(body, frame, obs, s)):
                    c.close("eph", a, b, 1e-9 * max(abs(q) for q in state_of(body, frame, obs, s)[:3]))
                c.same("size", len(got), 6)
                size = [norm(state_of(body, frame, obs, s)[j:j + 3]) for j in (0, 3)]
                for j in range(6):
                    c.close("eph, component by component", got[j], state_of(body, frame, obs, s)[j], 1e-11 * size[j // 3])
                # in any order, some of them twice
                ts = [t] + [c.uniform(-2e4, 2e4) if c.flag(0.7) else t for q in range(c.int(0, 3))]
                if c.flag(0.3):
                    ts = np.array(ts)
                v = np.array(x.eph_v(ts))
                c.same("eph_v: shape", v.shape, (len(ts), 6))
                for q, row in zip(ts, v):
                    for j, (a, b) in enumerate(zip(row, state_of(body, frame, obs, q))):
                        c.close("eph_v", float(a), b, 1e-11 * size[j // 3] * 10)
            name = x.get_name()
            c.same("name", name, body + (" - de440s" if own else " - SPICE"))
            info = x.get_extra_info()
            c.require(all(q in info for q in (body, frame, obs)), "extra info: " + info)
            if isinstance(x, pk.planet):
                c.same("numbers", (x.get_mu_central_body(), x.get_mu_self(), x.get_radius(), x.get_safe_radius()), (-1., -1., -1., -1.))
        x = q = r = make = None
        if c.flag(0.01):
            gc.collect()
        # the kernel is in use as long as a planet needs it
        need = any(o[2] for o in live)
        c.require((kernel() in spiceypy.kernels) == need, "after %s: the kernel is %s use" % (text, "not in" if need else "still in"))
        c.require(set(spiceypy.kernels) <= {kernel()}, "kernels left: %s" % spiceypy.kernels)
    c.nontrivial(asked > 0)


# numbers of bodies as NAIF publishes them
NAIF = {0: "SOLAR SYSTEM BARYCENTER", 1: "MERCURY BARYCENTER", 2: "VENUS BARYCENTER", 3: "EARTH BARYCENTER", 4: "MARS BARYCENTER",
        5: "JUPITER BARYCENTER", 6: "SATURN BARYCENTER", 7: "URANUS BARYCENTER", 8: "NEPTUNE BARYCENTER", 9: "PLUTO BARYCENTER",
        10: "SUN", 199: "MERCURY", 299: "VENUS", 399: "EARTH", 301: "MOON", 499: "MARS", 401: "PHOBOS", 402: "DEIMOS", 599: "JUPITER",
        501: "IO", 502: "EUROPA", 503: "GANYMEDE", 504: "CALLISTO", 699: "SATURN", 601: "MIMAS", 602: "ENCELADUS", 603: "TETHYS",
        604: "DIONE", 605: "RHEA", 606: "TITAN", 607: "HYPERION", 608: "IAPETUS", 609: "PHOEBE", 799: "URANUS", 701: "ARIEL",
        702: "UMBRIEL", 703: "TITANIA", 704: "OBERON", 705: "MIRANDA", 899: "NEPTUNE", 801: "TRITON", 802: "NEREID", 999: "PLUTO",
        901: "CHARON", 2000001: "CERES", 2000002: "PALLAS", 2000004: "VESTA", 2000433: "EROS", 2025143: "ITOKAWA", 2101955: "BENNU"}


@test("K36", "every case", 15000, 750000)
def spice_utilities(c):
    k = c.int(0, 5)
    if k == 0:
        a, b, t = c.pick(FRAMES), c.pick(FRAMES), c.uniform(-2e4, 2e4)
        e = pk.epoch(t)
        c.note(origin=a, destination=b, t=t)
        default = c.flag(0.1)
        got = pk.utils.rotation_matrix(a, b) if default else pk.utils.rotation_matrix(origin=a, destination=b, ep=e)
        want = spiceypy.pxform(a, b, ((0. if default else e.mjd2000) - 0.5) * DAY)
        for x, y in zip(flat(got), flat(want)):
            c.close("rotation matrix", x, y, 1e-7 * 1e-5)
        c.same("epoch untouched", e.mjd2000, pk.epoch(t).mjd2000)
    elif k == 1:
        n = c.pick(BODIES)
        c.same("name2naifid", pk.utils.name2naifid(n), spiceypy.names[n])
        c.require(outcome(lambda: pk.utils.name2naifid("NO SUCH BODY"))[0] == "raised", "name2naifid of no body")
    elif k == 2:
        n = c.pick(FRAMES)
        c.same("framename2naifid", pk.utils.framename2naifid(n), spiceypy.frames[n])
        c.raises("framename2naifid of no frame", NameError, lambda: pk.utils.framename2naifid(c.pick(["", "ECLIP", "X"])))
    elif k == 3:
        n = c.pick(sorted(NAIF))
        c.same("naifid2name(%d)" % n, pk.utils.naifid2name(n), NAIF[n])
        c.same("naifid2name of no body", pk.utils.naifid2name(c.pick([12, 777, 10 ** 9])), "Not Found")
    elif k == 4:
        ids = sorted({c.pick(sorted(NAIF)) for _ in range(c.int(0, 5))})
        spiceypy.objects["x.bsp"] = ids
        got = pk.utils.inspect_spice_kernel("x.bsp")
        c.same("inspect_spice_kernel", (type(got), sorted(got)), (list, ids))
        spiceypy.objects[kernel()] = ids
        c.same("kernel_file", pk.udpla.de440s.kernel_file(), kernel())
        c.same("body_list", sorted(pk.udpla.de440s.body_list()), sorted(NAIF[i] for i in ids))
    else:
        c.same("spice_version", pk.utils.spice_version(), "stand-in TOOLKIT")
    c.nontrivial()

"""Stand-in for spiceypy: bodies on made-up orbits, and a record of the kernels in use."""
import math

import numpy as np

kernels = []  # as furnsh and unload leave them
calls = []


class NotFoundError(Exception):
    pass


class SpiceyError(Exception):
    pass


names = {"SSB": 0, "SOLAR SYSTEM BARYCENTER": 0, "MERCURY BARYCENTER": 1, "VENUS BARYCENTER": 2, "EARTH BARYCENTER": 3,
         "MARS BARYCENTER": 4, "JUPITER BARYCENTER": 5, "SUN": 10, "EARTH": 399, "MOON": 301}
frames = {"J2000": 1, "B1950": 2, "GALACTIC": 13, "ECLIPJ2000": 17, "ECLIPB1950": 18}
objects = {}  # path -> ids


def tkvrsn(item):
    return "stand-in " + item


def furnsh(path):
    for p in [path] if isinstance(path, str) else path:
        kernels.append(p)


def unload(path):
    for p in [path] if isinstance(path, str) else path:
        if p in kernels:
            kernels.remove(p)


def spkobj(path):
    return set(objects.get(path, ()))


def bodn2c(name):
    if name not in names:
        raise NotFoundError(name)
    return names[name]


def irfnum(name):
    return frames.get(name, 0)


def one(body, et, frame, obs):
    """Position and velocity in km and km/s: another orbit for every body, frame and observer."""
    b, o, f = bodn2c(body), bodn2c(obs), frames[frame]
    w = 2e-7 / (1 + b % 13)
    a = 1e8 * (1 + b % 7) + 1e5 * o
    t = w * et + 0.1 * f
    return np.array([a * math.cos(t), a * math.sin(t), 1e6 * f * math.sin(2 * t),
                     -a * w * math.sin(t), a * w * math.cos(t), 2e6 * f * w * math.cos(2 * t)])


def spkezr(targ, et, ref, abcorr, obs):
    calls.append(("spkezr", targ, et, ref, abcorr, obs))
    if not kernels:
        raise SpiceyError("no kernel")
    if abcorr != "NONE":
        raise SpiceyError("stand-in: only geometric states")
    if np.ndim(et):
        return [one(targ, float(t), ref, obs) for t in et], [0.1] * len(et)
    return one(targ, float(et), ref, obs), 0.1


def pxform(fro, to, et):
    calls.append(("pxform", fro, to, et))
    a = 1e-7 * et + frames[fro] - frames[to]
    return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1.]])

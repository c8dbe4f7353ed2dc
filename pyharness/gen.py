"""Generators shared by the tests."""
import math
import re

import numpy as np

ONE = 1.0


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def elements(c, mu, size, hyperbolic=True):
    """Classical elements of an orbit of about the given size."""
    hyp = hyperbolic and c.flag(0.3)
    e = c.uniform(1.05, 4.) if hyp else c.rough(0., 0.9)
    a = size * c.uniform(0.3, 3.) * (-1. if hyp else 1.)
    if hyp:
        w = math.acos(-1. / e)
        f = c.uniform(-0.9 * w, 0.9 * w)
    else:
        f = c.uniform(-math.pi, math.pi)
    return [a, e, c.uniform(0.05, 3.), c.uniform(0, 2 * math.pi), c.uniform(0, 2 * math.pi), f]


def state(par, mu):
    """Position and velocity, from the definition of the elements."""
    a, e, i, W, w, f = par
    p = a * (1 - e * e)
    r = p / (1 + e * math.cos(f))
    h = math.sqrt(mu * p)
    cW, sW, ci, si = math.cos(W), math.sin(W), math.cos(i), math.sin(i)
    P = [cW * math.cos(w) - sW * ci * math.sin(w), sW * math.cos(w) + cW * ci * math.sin(w), si * math.sin(w)]
    Q = [-cW * math.sin(w) - sW * ci * math.cos(w), -sW * math.sin(w) + cW * ci * math.cos(w), si * math.cos(w)]
    return ([r * (math.cos(f) * x + math.sin(f) * y) for x, y in zip(P, Q)],
            [mu / h * (-math.sin(f) * x + (e + math.cos(f)) * y) for x, y in zip(P, Q)])


def orbit(c, mu=1., size=1., hyperbolic=True):
    r, v = state(elements(c, mu, size, hyperbolic), mu)
    return [r, v]


def units(c):
    """(gravitational parameter, length, velocity)."""
    k = c.int(0, 2)
    if k == 0:
        return 1., 1., 1.
    if k == 1:
        return 1.32712440018e20, 1.495978707e11, 29784.69
    mu, L = c.log(1e-3, 1e16), c.log(1e-2, 1e9)
    return mu, L, math.sqrt(mu / L)


def shaped(c, x):
    """The same numbers as the containers a user may hold them in."""
    k = c.int(0, 3)
    if k == 0:
        return x
    if k == 1:
        return np.array(x, dtype=float)
    if k == 2:
        return tuple(tuple(y) if isinstance(y, list) else y for y in x)
    return [np.array(y) if isinstance(y, list) else np.float64(y) for y in x]


def flat(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def outcome(f):
    """What f() returns, or the kind of exception it raises."""
    try:
        return ("returned", f())
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def numbers(text):
    """The numbers in a text, but those that are part of a word."""
    return [float(w) for w in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w])", text)]


def in_order(c, what, text, wants):
    """The wanted values (value, tolerance) are among the numbers of the text, in this order."""
    ns = numbers(text)
    k = 0
    for w, tol in wants:
        while k < len(ns) and not abs(ns[k] - w) <= tol:
            k += 1
        c.require(k < len(ns), "%s does not tell %r where it should: %s" % (what, w, text[:1500]))
        k += 1

"""K31: the Python objects hold, compute, copy and pickle exactly what the C++ ones do."""
import copy
import gc
import math
import pickle

import numpy as np
import pykep as pk
from pykep import core

from gen import *
from pbt import test
from p_functions import agree, direct


def copies(c, x):
    """A copy of x, in one of the ways Python has."""
    k = c.int(0, 4)
    if k == 0:
        return copy.copy(x), "copy"
    if k == 1:
        return copy.deepcopy(x), "deepcopy"
    if k == 2:
        return copy.deepcopy([x, {"a": x}])[1]["a"], "deepcopy of a container"
    if k == 3:
        return pickle.loads(pickle.dumps(x, protocol=c.int(2, pickle.HIGHEST_PROTOCOL))), "pickle"
    return pickle.loads(pickle.dumps([x]))[0], "pickle of a container"


def some(c, args):
    """Positional arguments, then keyword arguments in any order."""
    names, n = list(args), c.int(0, len(args))
    rest = names[n:]
    for i in range(len(rest) - 1, 0, -1):
        j = c.int(0, i)
        rest[i], rest[j] = rest[j], rest[i]
    return [args[k] for k in names[:n]], {k: args[k] for k in rest}


@test("K31", "the problem has a solution of more than one revolution, or the arguments are refused", 12000, 500000)
def lambert_objects(c):
    mu, L, _ = units(c)
    # angles well inside (0, pi), where the direction of motion and the revolutions decide the rest
    a, b = c.direction(), c.direction()
    c.need(abs(dot(a, b)) < 0.99 and abs(cross(a, b)[2]) > 1e-3)
    args = {"r0": [L * c.uniform(0.5, 2.) * x for x in a], "r1": [L * c.uniform(0.5, 2.) * x for x in b],
            "tof": math.sqrt(L ** 3 / mu) * c.log(0.3, 60.), "mu": mu, "cw": c.flag(), "multi_revs": c.int(0, 5)}
    if c.flag(0.1):
        k = c.pick(["tof", "mu"])
        args[k] = c.pick([0., -1.]) * args[k]
    elif c.flag(0.05):
        args["r1"] = [2 * x for x in args["r0"]]
    dropped = c.int(0, 6) if c.flag(0.2) else 0
    given = dict(args)
    if dropped and dropped <= 2:
        # the defaults: a quarter of the unit circle, one revolution, counterclockwise
        args.update(multi_revs=1)
        del given["multi_revs"]
        if dropped == 2:
            args.update(cw=False)
            del given["cw"]
    for k in ("r0", "r1"):
        given[k] = shaped(c, given[k])
    pos, kw = some(c, given)
    c.note(**args, positional=len(pos))
    x = flat(args["r0"]) + flat(args["r1"]) + [args["tof"], args["mu"], args["cw"], args["multi_revs"]]
    want = direct(c, "lambert", x)
    got = outcome(lambda: pk.lambert_problem(*pos, **kw))
    c.require(got[0] == want[0], "lambert_problem: %s, the C++ library: %s" % (got, want))
    if got[0] == "raised":
        c.same("lambert_problem: exception", got[1:], want[1:])
        c.label("raises " + got[1])
        c.nontrivial()
        return

    def state(l):
        n = 2 * l.Nmax + 1
        c.same("shapes", [len(l.v0), len(l.v1), len(l.x), len(l.iters)] + [len(v) for v in l.v0] + [len(v) for v in l.v1],
               [n] * 4 + [3] * (2 * n))
        return [float(l.Nmax)] + flat(l.v0) + flat(l.v1) + list(l.x) + [float(i) for i in l.iters] + flat(l.r0) + flat(l.r1) + [l.tof, l.mu]
    l = got[1]
    c.same("lambert_problem", state(l), want[1])
    text = core._direct_text("lambert", x)
    c.same("repr", repr(l), text)
    m, how = copies(c, l)
    c.label(how)
    kept = l.v0, l.v1, l.r0
    frozen = copy.deepcopy(kept)
    del l
    c.same(how, state(m), want[1])
    c.same("repr of " + how, repr(m), text)
    c.same("results after the problem is gone", kept, frozen)
    for k in ("v0", "v1", "r0", "r1", "tof", "mu", "x", "iters", "Nmax"):
        c.raises("setting " + k, AttributeError, lambda: setattr(m, k, getattr(m, k)))
    c.nontrivial(m.Nmax > 0)


@test("K31", "the state is propagated for a time other than 0", 300, 12500)
def stark_objects(c):
    mu, L, V = units(c)
    veff, tol = V * c.uniform(0.5, 5.), c.pick([1e-16, 1e-12, 1e-9])
    args = {"mu": mu, "veff": veff, "tol": tol}
    if c.flag(0.2):
        args["tol"] = tol = 1e-16
        given = {k: args[k] for k in ("mu", "veff")}
    else:
        given = args
    pos, kw = some(c, given)
    s = flat(orbit(c, mu, L, hyperbolic=False)) + [c.uniform(1., 3.)]
    u = [0.02 * mu / L ** 2 * c.unit() * x for x in c.direction()]
    t = math.sqrt(L ** 3 / mu) * c.rough(-1., 1.)
    if c.flag(0.05):
        s[6] = 0.
    more = [c.uniform(-1., 1.) for _ in range(2)]
    c.note(**args, state=s, thrust=u, tof=t, fractions=more)
    p = pk.stark_problem(*pos, **kw)
    x = [mu, veff, tol] + s + u + [t]
    text = core._direct_text("stark", [mu, veff, tol])
    for how in ("", *(["copy"] * 2)):
        if how:
            p, how = copies(c, p)
            x[-1] = t = t * more.pop()
        c.same("stark_problem " + how, [p.mu, p.veff, p.tol], [mu, veff, tol])
        c.same("repr " + how, repr(p), text)
        a, b = shaped(c, s), shaped(c, u)
        if c.flag(0.6):
            agree(c, "propagate", outcome(lambda: p.propagate(a, b, t) if c.flag() else p.propagate(tof=t, thrust=b, rvm_state=a)),
                  direct(c, "stark", x))
        else:
            agree(c, "propagate_var",
                  outcome(lambda: p.propagate_var(a, b, t) if c.flag() else p.propagate_var(tof=t, thrust=b, rvm_state=a)),
                  direct(c, "stark_var", x), lambda r: len(r) == 3 and [np.shape(y) for y in r] == [(7,), (7, 7), (7, 3)])
    c.nontrivial(t != 0)


DEFAULTS = {"rvs": [[1., 0., 0.], [0., 1., 0.]], "ms": 1., "throttles": [0.] * 6, "rvf": [[0., 1., 0.], [-1., 0., 0.]], "mf": 1.,
            "tof": math.pi / 2, "max_thrust": 1., "isp": 1., "mu": 1., "cut": 0.5}


def leg_value(c, k, hf):
    """A value for attribute k, near the default problem so that any mix of them can be flown."""
    if k == "rvs":
        return orbit(c, hyperbolic=False)
    if k == "rvf":
        return orbit(c, hyperbolic=False)
    if k in ("ms", "mf"):
        return c.uniform(0.5, 3.)
    if k == "throttles":
        n = c.int(1, 3 if hf else 6)
        return [c.rough(-0.6, 0.6) if not hf else c.pick([-1, 1]) * c.uniform(0.05, 0.6) for _ in range(3 * n)]
    if k == "tof":
        return c.uniform(0.1, 3.)
    if k == "max_thrust":
        return c.uniform(0.001, 0.1)
    if k == "isp":
        return c.uniform(0.5, 3.)
    if k == "mu":
        return c.uniform(0.5, 2.)
    if k == "cut":
        return c.rough(0., 1.)
    return c.pick([1e-16, 1e-12, 1e-10])  # tol


def bad_value(c, k):
    if k == "throttles":
        return c.pick([[], [0.1], [0.1] * 4, [0.1] * 5])
    if k == "cut":
        return c.pick([-0.1, 1.1, math.nan])
    if k == "tol":
        return c.pick([0., -1e-9, 2.])
    return -c.uniform(0.1, 1.)


def legs(c, hf):
    what, cls, tag = ("hf", pk.leg.sims_flanagan_hf, "sims_flanagan_hf") if hf else ("leg", pk.leg.sims_flanagan, "sims_flanagan")
    # every attribute given in the constructor in some cases, some of them in others
    model = copy.deepcopy(DEFAULTS)
    given = {}
    every = c.flag()
    for k in DEFAULTS:
        if every or c.flag(0.4):
            model[k] = leg_value(c, k, hf)
            given[k] = shaped(c, model[k]) if isinstance(model[k], list) and k != "throttles" else model[k]
    if every and c.flag():
        pos, kw = some(c, given)
    else:
        pos, kw = [], given
    c.note(leg=tag, **model)
    objects = [cls(*pos, **kw)]
    model["tol"] = 1e-16
    models = [model]

    def args(m):
        return (([m["tol"]] if hf else []) + flat(m["rvs"]) + [m["ms"]] + flat(m["rvf"])
                + [m[k] for k in ("mf", "tof", "max_thrust", "isp", "mu", "cut")] + list(m["throttles"]))

    def look(o, m, name):
        for k in DEFAULTS:
            c.same("%s.%s" % (name, k), getattr(o, k), m[k])
        n = len(m["throttles"]) // 3
        f = int(n * m["cut"])
        c.same(name + ": segments", [o.nseg, o.nseg_fwd, o.nseg_bck], [n, f, n - f])
        if hf:
            c.same(name + ".tol", o.tol, m["tol"])
            c.same(name + ".rvms", o.rvms, flat(m["rvs"]) + [m["ms"]])
            c.same(name + ".rvmf", o.rvmf, flat(m["rvf"]) + [m["mf"]])
    changed = 0
    for step in range(c.int(2, 7 if hf else 12)):
        i = c.int(0, len(objects) - 1)
        o, m = objects[i], models[i]
        op = c.int(0, 7)
        if op <= 1:
            k = c.pick(list(DEFAULTS) + (["tol", "rvms", "rvmf"] if hf else []))
            if k in ("rvms", "rvmf"):
                a, b = ("rvs", "ms") if k == "rvms" else ("rvf", "mf")
                m[a], m[b] = leg_value(c, a, hf), leg_value(c, b, hf)
                x = flat(m[a]) + [m[b]]
                c.note(set=k, of=i, to=x)
                setattr(o, k, shaped(c, x))
            else:
                m[k] = leg_value(c, k, hf)
                c.note(set=k, of=i, to=m[k])
                setattr(o, k, shaped(c, m[k]) if isinstance(m[k], list) else m[k])
            changed += 1
        elif op == 2:
            k = c.pick(["tof", "max_thrust", "isp", "mu", "cut", "throttles"] + (["tol"] if hf else []))
            x = bad_value(c, k)
            c.note(refused=k, of=i, to=x)
            c.raises("%s.%s = %s" % (tag, k, x), RuntimeError if k == "throttles" else ValueError, lambda: setattr(o, k, x))
        elif op == 3 and len(objects) < 3:
            p, how = copies(c, o)
            c.note(**{how.replace(" ", "_"): i})
            c.label(how)
            objects.append(p)
            models.append(copy.deepcopy(m))
            if c.flag():
                objects[i], objects[-1] = objects[-1], objects[i]  # go on with the copy
        elif op == 4:
            agree(c, "%s: gradients" % tag, outcome(lambda: (lambda r: (r, o.compute_tc_grad()))(o.compute_mc_grad())),
                  direct(c, what + "_grad", args(m)),
                  lambda r: len(r[0]) == 3 and [np.shape(y) for y in r[0]] == [(7, 7), (7, 7), (7, 1 + len(m["throttles"]))]
                  and np.shape(r[1]) == (len(m["throttles"]) // 3, len(m["throttles"])))
        elif op == 5 and hf:
            n = c.int(2, 5)
            agree(c, "get_state_history", outcome(lambda: o.get_state_history(n)), direct(c, "hf_history", [n] + args(m)),
                  lambda r: [len(y) for y in r] == [7 * n] * (len(m["throttles"]) // 3))
        elif op == 6:
            look(o, m, tag)
            c.same("repr", repr(o), core._direct_text(what, args(m)))
        else:
            agree(c, "%s: constraints" % tag,
                  outcome(lambda: [o.compute_mismatch_constraints(), o.compute_throttle_constraints(),
                                   float(o.nseg), float(o.nseg_fwd), float(o.nseg_bck)]), direct(c, what, args(m)))
    for o, m in zip(objects, models):
        look(o, m, tag + ", at the end")
    o, m = objects.pop(), models.pop()
    del objects
    r = [o.compute_mismatch_constraints(), o.compute_throttle_constraints()]
    g = o.compute_tc_grad()
    n = float(o.nseg), float(o.nseg_fwd), float(o.nseg_bck)
    del o
    gc.collect()
    c.same(tag + ": results that outlive the leg", flat(r) + list(n), core._direct(what, args(m)))
    c.same(tag + ": arrays that outlive the leg", flat(g),
           flat([[2 * m["throttles"][j] if j // 3 == i else 0. for j in range(len(m["throttles"]))] for i in range(len(m["throttles"]) // 3)]))
    c.nontrivial(changed > 0)


@test("K31", "an attribute is changed", 8000, 300000)
def leg_histories(c):
    legs(c, False)


@test("K31", "an attribute is changed", 192, 7500)
def hf_leg_histories(c):
    legs(c, True)

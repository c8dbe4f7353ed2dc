"""K32: Python epochs are the calendar's."""
import copy
import datetime
import math
import pickle

import numpy as np
import pykep as pk
from pykep import core

from gen import *
from pbt import test
from p_objects import copies

DAY = datetime.timedelta(days=1)
US = datetime.timedelta(microseconds=1)
ZERO = datetime.datetime(2000, 1, 1)
TYPES = ["MJD2000", "MJD", "JD"]
SHIFT = {"MJD2000": 0., "MJD": 51544., "JD": 2451544.5}


def moment(c, wide=True):
    """A date: any microsecond of the years 1 to 9999, most of them near now."""
    if wide and c.flag(0.15):
        d = datetime.date.fromordinal(c.int(2, datetime.date.max.toordinal() - 1))
    else:
        d = datetime.date(2000, 1, 1) + datetime.timedelta(days=c.int(-20000, 30000))
    k = c.int(0, 3)
    us = [0, c.int(0, 86399) * 1000000, c.int(0, 86399999999), 86399999999][k]
    return datetime.datetime(d.year, d.month, d.day) + us * US


def text(d):
    return "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


def days(d):
    """Days since 2000, within half a unit in the last place."""
    n = (d - ZERO) // US
    return n / 86400e6


def looks(c, what, e, d):
    """Epoch e is date d."""
    c.same(what + ": text", repr(e), text(d))
    c.same(what + ": str", str(e), text(d))
    x = days(d)
    for name in TYPES:
        y = x + SHIFT[name]
        c.close(what + ": " + name, getattr(e, name.lower()), y, 4e-16 * max(abs(x), abs(y), 1.))


@test("K32", "the date has a time of day", 60000, 4000000)
def dates(c):
    d = moment(c)
    form = c.int(0, 6)
    c.note(date=d, form=form)
    ep = pk.epoch
    if form == 0:
        looks(c, "epoch(datetime)", ep(d), d)
    elif form == 1:
        looks(c, "epoch(when=datetime)", ep(when=d), d)
    elif form == 2:
        class other(datetime.datetime):
            pass
        looks(c, "epoch(subclass of datetime)", ep(other(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)), d)
    else:
        full = text(d)
        n = c.pick([7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26])
        s = full[:n]
        # what the text leaves out is zero, or the first of the month
        whole = (s + "0000-01-01T00:00:00.000000"[n:])
        want = datetime.datetime.fromisoformat(whole)
        c.note(text=s)
        k = c.int(0, 2)
        e = ep(s) if k == 0 else ep(when=s, string_format=ep.string_format.ISO) if k == 1 else ep(s, ep.string_format.ISO)
        looks(c, "epoch(text)", e, want)
    c.nontrivial(d.time() != datetime.time(0))


@test("K32", "the day is not whole", 60000, 4000000)
def julian_dates(c):
    kind = c.pick(TYPES)
    jt = getattr(pk.epoch.julian_type, kind)
    whole = c.flag(0.3)
    x = SHIFT[kind] + (c.int(-700000, 2900000) if c.flag(0.15) else c.int(-20000, 30000))
    if kind == "JD" and whole:
        x += 0.5
    if not whole:
        x += c.uniform(-1., 1.)
    n = int(x) if whole and c.flag() else float(x)
    if isinstance(n, float) and c.flag(0.2):
        n = np.float64(n)
    k = c.int(0, 3)
    c.note(when=n, type=kind, form=k)
    e = [lambda: pk.epoch(n, jt), lambda: pk.epoch(when=n, julian_type=jt), lambda: pk.epoch(n, julian_type=jt),
         lambda: pk.epoch(n) if kind == "MJD2000" else pk.epoch(julian_type=jt, when=n)][k]()
    c.same("epoch", [e.mjd2000, e.mjd, e.jd], core._direct("epoch", [float(n), TYPES.index(kind), 0.])[:3])
    # the date the number stands for, to a microsecond beyond what a double holds
    us = (float(n) - SHIFT[kind]) * 86400e6
    got = datetime.datetime.fromisoformat(repr(e))
    c.close("the date", float((got - ZERO) // US), us, 1.01 + 2.3e-16 * max(abs(us), abs(float(n)) * 86400e6) * 2)
    looks(c, "epoch(number)", e, got)
    c.nontrivial(float(n) != math.floor(float(n)))


@test("K32", "the shift is not whole days", 60000, 4000000)
def arithmetic(c):
    d = moment(c, False)
    e = pk.epoch(d)
    form = c.int(0, 3)
    if form == 0:  # a timedelta is exact
        td = datetime.timedelta(days=c.int(-30000, 30000), seconds=c.int(-86400, 86400), microseconds=c.int(-999999, 999999))
        c.note(date=d, timedelta=td)
        # the library takes a timedelta as a double of seconds: to the last place of these
        slack = 1 + int(2.3e-16 * abs(td.total_seconds()) * 1e6)
        for f, want in ((e + td, d + td), (e - td, d - td)):
            got = datetime.datetime.fromisoformat(repr(f))
            c.require(abs(got - want) <= slack * US, "%s with %s: %s, expected %s" % (d, td, got, want))
            looks(c, "epoch and timedelta", f, got)
    else:
        x = c.int(-30000, 30000) if form == 1 else c.uniform(-30000., 30000.) if form == 2 else c.uniform(-1., 1.) * 10. ** c.int(-9, 2)
        c.note(date=d, days=x)
        for f, s in ((e + x, 1), (e - x, -1)):
            got = datetime.datetime.fromisoformat(repr(f))
            us = float((got - d) // US)
            c.close("epoch and days", us, s * float(x) * 86400e6, 1.01 + 5e-16 * abs(x) * 86400e6)
            looks(c, "epoch and days", f, got)
        if form == 1:
            c.same("whole days", (repr(e + x), repr(e - x)), (text(d + x * DAY), text(d - x * DAY)))
    c.same("the epoch itself", repr(e), text(d))
    c.raises("epoch + text", TypeError, lambda: e + "1")
    c.raises("epoch + epoch", TypeError, lambda: e + e)
    c.nontrivial(form != 1)


@test("K32", "the epochs are less than a second apart", 40000, 2400000)
def order(c):
    a = moment(c)
    k = c.int(0, 3)
    b = moment(c) if k == 0 else a + [0, c.sign(), c.int(-999999, 999999)][k - 1] * US
    c.note(a=a, b=b)
    x, y = pk.epoch(a), pk.epoch(b)
    c.same("<, <=, ==, !=, >, >=", [x < y, x <= y, x == y, x != y, x > y, x >= y], [a < b, a <= b, a == b, a != b, a > b, a >= b])
    z, how = copies(c, x)
    c.label(how)
    c.same(how, (z == x, repr(z)), (True, text(a)))
    looks(c, how, z, a)
    z += 1.5
    c.same(how + ": changed", repr(x), text(a))
    c.same("sorting", [repr(i) for i in sorted([x, y, pk.epoch(0.)])], [text(i) for i in sorted([a, b, ZERO])])
    for n in ("mjd2000", "mjd", "jd"):
        c.raises("setting " + n, AttributeError, lambda: setattr(x, n, 0.))
    c.nontrivial(abs(a - b) < datetime.timedelta(seconds=1))


@test("K32", "every case", 10000, 400000)
def refusals(c):
    d = moment(c)
    k = c.int(0, 5)
    s = text(d)
    if k == 0:  # a length that no text has
        n = c.pick([i for i in range(0, 27) if i not in (7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26)])
        s = s[:n] if c.flag(0.8) else s + "0" * c.int(1, 3)
        c.note(text=s)
        c.raises("epoch(%r)" % s, (ValueError, RuntimeError), lambda: pk.epoch(s))
    elif k == 1:  # letters for a number
        i = c.pick([0, 5, 8, 11, 14, 17])
        s = s[:i] + c.pick(["x", ":"]) + s[i + 1:]
        c.note(text=s)
        c.raises("epoch(%r)" % s, (ValueError, RuntimeError), lambda: pk.epoch(s))
    elif k == 2:
        s = s[:5] + "%02d" % c.pick([0, 13, 99]) + s[7:]
        c.note(text=s)
        c.raises("epoch(%r)" % s, (ValueError, RuntimeError), lambda: pk.epoch(s))
    elif k == 3:
        x = c.pick([d.date(), d.time(), datetime.timedelta(1.5), None, [1.], {}, (2000, 1, 1), object(), 1j])
        c.note(argument=repr(x))
        c.raises("epoch(%r)" % (x,), TypeError, lambda: pk.epoch(x))
    elif k == 4:
        x = c.pick([math.nan, math.inf, -math.inf, 1e9, -1e9, 1e300])
        t = getattr(pk.epoch.julian_type, c.pick(TYPES))
        c.note(when=x)
        c.raises("epoch(%r)" % x, ValueError, lambda: pk.epoch(x, t))
    else:
        a, e, b = datetime.datetime.now(datetime.timezone.utc), pk.epoch.now(), datetime.datetime.now(datetime.timezone.utc)
        got = datetime.datetime.fromisoformat(repr(e) + "+00:00")
        slack = datetime.timedelta(minutes=5)
        c.note(now=c.int(0, 10))
        c.require(a - slack <= got <= b + slack, "now: %s, while the clock says %s" % (got, b))
    c.nontrivial()

"""Property-based testing for pykep: seeded cases, shrinking, replays, crash and hang detection.

A case is a sequence of 64-bit choices. Generators draw from it; a shrunk case is a shorter sequence with smaller choices,
and running out of choices reads as zeros, which every generator maps to its plainest value.
"""
import hashlib
import json
import math
import mmap
import os
import pickle
import random
import resource
import signal
import struct
import sys
import time
import traceback

HANG = 120  # seconds without a finished case that count as a hang


class Failed(Exception):
    pass


class Discarded(Exception):
    pass


class Case:
    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.choices = rng, choices, []
        self.labels, self.worst, self.text, self.is_nontrivial = [], {}, [], False
        self.kept = []

    # draws
    def u64(self):
        if self.rng is not None:
            v = self.rng.getrandbits(64)
        else:
            v = self.given[len(self.choices)] if len(self.choices) < len(self.given) else 0
        self.choices.append(v)
        return v

    def unit(self):  # [0,1)
        return (self.u64() >> 11) / 2. ** 53

    def uniform(self, a, b):
        return a + (b - a) * self.unit()

    def log(self, a, b):
        return a * (b / a) ** self.unit()

    def int(self, a, b):
        return a + (self.u64() >> 1) * (b - a + 1) // 2 ** 63

    def flag(self, p=0.5):
        return self.unit() > 1 - p

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def sign(self):
        return -1. if self.flag() else 1.

    def direction(self):
        z, a = self.uniform(-1, 1), self.uniform(0, 2 * math.pi)
        s = math.sqrt(max(0., 1 - z * z))
        return [s * math.cos(a), s * math.sin(a), z]

    def rough(self, a, b):
        """A value in [a,b], at times short, at times an end."""
        k = self.int(0, 9)
        x = self.uniform(a, b)
        if k == 1:
            return a
        if k == 2:
            return b
        if k == 3:
            y = round(x, 1)
            return y if a <= y <= b else x
        return x

    # records
    def label(self, s):
        self.labels.append(s)

    def note(self, **k):
        self.text += ["%s=%s" % (n, show(v)) for n, v in k.items()]

    def nontrivial(self, yes=True):
        self.is_nontrivial = self.is_nontrivial or yes

    # verdicts
    def need(self, yes):
        if not yes:
            raise Discarded()

    def require(self, yes, what):
        if not yes:
            raise Failed(what)

    def same(self, what, got, want):
        if not identical(got, want):
            raise Failed("%s: %s, expected %s" % (what, show(got), show(want)))

    def close(self, what, got, want, tol):
        d = abs(got - want)
        if not d <= tol and not (math.isnan(got) and math.isnan(want)) and got != want:
            raise Failed("%s: %s, expected %s (allowed difference %g)" % (what, show(got), show(want), tol))
        if tol > 0 and d == d:
            self.worst[what] = max(self.worst.get(what, 0.), float(d / tol))

    def keep(self, what, got):
        """A result that stays in use: what is done later in the case must not change it."""
        self.kept.append((what, got, frozen(got)))

    def unchanged(self):
        for what, got, was in self.kept:
            self.same(what + ": the result returned earlier", got, was)

    def raises(self, what, kinds, f):
        try:
            r = f()
        except kinds:
            return
        except Exception as e:
            raise Failed("%s: %s instead of %s" % (what, repr(e)[:200], kinds))
        raise Failed("%s: no exception, but %s" % (what, show(r)))


def show(v, depth=0):
    if isinstance(v, float):
        return repr(float(v))
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x, depth + 1) for x in v) + "]"
    if hasattr(v, "tolist"):
        return show(v.tolist(), depth)
    return repr(v)


def frozen(v):
    if hasattr(v, "tolist"):
        return v.tolist()
    return [frozen(x) for x in v] if isinstance(v, (list, tuple)) else v


def identical(a, b):
    """Equal, number by number and shape by shape; nan equals nan."""
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(identical(x, y) for x, y in zip(a, b)))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


TESTS = []


def test(prop, rule, quick, thorough, one_process=False):
    def f(g):
        TESTS.append({"prop": prop, "name": g.__name__, "rule": rule, "quick": quick, "thorough": thorough, "f": g,
                      "one": one_process})
        return g
    return f


def run_case(t, case):
    """None when the case holds (or is discarded), else what failed."""
    try:
        t["f"](case)
        case.unchanged()
    except Discarded:
        return "discarded"
    except Failed as e:
        return "failed: " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "failed: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)
    return None


def rng_for(seed, prop, name, i):
    return random.Random(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, name, i)).encode()).digest())


def forked(f, timeout=HANG):
    """f() in a child; (result, None), or (None, how the child ended)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            limit()
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as out:
                out.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b"", time.time() + timeout
    import select
    with os.fdopen(r, "rb", buffering=0) as inp:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([inp], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None, "does not end"
            x = inp.read(1 << 16)
            if not x:
                break
            data += x
    _, status = os.waitpid(pid, 0)
    if status != 0:
        return None, "crash (status %d)" % status
    return pickle.loads(data), None


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def attempt(t, choices):
    """(what failed or None, choices used, text)."""
    def f():
        c = Case(choices=choices)
        r = run_case(t, c)
        return r, c.choices, ", ".join(c.text)
    r, end = forked(f)
    if end:
        return "failed: " + end, choices, "(died)"
    return r if r[0] and r[0].startswith("failed") else (None, r[1], r[2])


def shrink(t, choices, budget=60.):
    best = attempt(t, choices)
    if best[0] is None:
        return None
    end = time.time() + budget
    cur = best[1][:len(choices)] if best[1] else choices
    slow = "does not end" in best[0]
    if slow:
        return cur, best

    def better(cand):
        nonlocal cur, best
        if time.time() > end or cand == cur:
            return False
        r = attempt(t, cand)
        if r[0] is None:
            return False
        used = r[1]
        while used and used[-1] == 0:
            used = used[:-1]
        if (len(used), used) < (len(cur), cur):
            cur, best = used, r
            return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        n = len(cur) // 2
        while n >= 1:
            i = 0
            while i + n <= len(cur):
                if better(cur[:i] + cur[i + n:]):
                    progress = True
                else:
                    i += n
                if time.time() > end:
                    break
            n //= 2
        for i in range(len(cur)):
            if i >= len(cur) or time.time() > end:
                break
            for v in (0, cur[i] & ~((1 << 56) - 1), cur[i] & ~((1 << 40) - 1), cur[i] >> 1):
                if i < len(cur) and v < cur[i] and better(cur[:i] + [v] + cur[i + 1:]):
                    progress = True
                    break
    return cur, best


def worker(t, prop, seed, idx, n, workers, path, slot):
    s = {"evals": 0, "discarded": 0, "nontrivial": 0, "hashes": set(), "labels": {}, "worst": {}, "samples": [], "fail": None}
    for i in range(idx, n, workers):
        struct.pack_into("q", slot, 8 * idx, i)
        c = Case(rng=rng_for(seed, t["prop"], t["name"], i))
        r = run_case(t, c)
        s["evals"] += 1
        if r == "discarded":
            s["discarded"] += 1
            continue
        if r:
            s["fail"] = (i, c.choices, r)
            break
        for x in c.labels:
            s["labels"][x] = s["labels"].get(x, 0) + 1
        for k, v in c.worst.items():
            s["worst"][k] = max(s["worst"].get(k, 0.), v)
        if c.is_nontrivial:
            s["nontrivial"] += 1
            s["hashes"].add(hash(tuple(c.choices)))
            if len(s["samples"]) < 2:
                s["samples"].append(", ".join(c.text)[:600])
    struct.pack_into("q", slot, 8 * idx, -1)
    with open(path, "wb") as f:
        pickle.dump(s, f)


def run_test(t, prop, seed, n, workers, tmp):
    slot = mmap.mmap(-1, 8 * workers)
    pids = {}
    for k in range(workers):
        struct.pack_into("q", slot, 8 * k, -2)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                limit()
                worker(t, prop, seed, k, n, workers, os.path.join(tmp, "w%d" % k), slot)
                code = 0
            finally:
                os._exit(code)
        pids[pid] = k
    last = {k: (None, time.time()) for k in range(workers)}
    lost = []  # (case index, how)
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            k = pids.pop(pid)
            if status != 0:
                lost.append((struct.unpack_from("q", slot, 8 * k)[0], "crash (status %d)" % status))
            continue
        for pid, k in list(pids.items()):
            i = struct.unpack_from("q", slot, 8 * k)[0]
            if i != last[k][0]:
                last[k] = (i, time.time())
            elif time.time() - last[k][1] > HANG:
                os.kill(pid, signal.SIGKILL)
        time.sleep(0.02)
    total = {"evals": 0, "discarded": 0, "nontrivial": 0, "hashes": set(), "labels": {}, "worst": {}, "samples": [], "fail": None}
    for k in range(workers):
        p = os.path.join(tmp, "w%d" % k)
        if not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            s = pickle.load(f)
        os.remove(p)
        for x in ("evals", "discarded", "nontrivial"):
            total[x] += s[x]
        total["hashes"] |= s["hashes"]
        for x, v in s["labels"].items():
            total["labels"][x] = total["labels"].get(x, 0) + v
        for x, v in s["worst"].items():
            total["worst"][x] = max(total["worst"].get(x, 0.), v)
        total["samples"] += s["samples"]
        if s["fail"] and (total["fail"] is None or s["fail"][0] < total["fail"][0]):
            total["fail"] = s["fail"]
    for i, how in lost:
        if i < 0:
            print("a worker was lost in %s: %s" % (t["name"], how), file=sys.stderr)
            sys.exit(2)
        # The choices of the lost case: its generator run again, as far as it gets.
        total["fail"] = total["fail"] or (i, [rng_for(seed, t["prop"], t["name"], i).getrandbits(64)] * 0 or draws(seed, t, i), "failed: " + how)
    return total


def draws(seed, t, i):
    g = rng_for(seed, t["prop"], t["name"], i)
    return [g.getrandbits(64) for _ in range(600)]


def main():
    a, av = {}, sys.argv[1:]
    while av:
        k = av.pop(0)
        a[k[2:]] = av.pop(0)
    prop, tests = a["property"], [t for t in TESTS if t["prop"] == a["property"]]
    if "replay" in a:
        with open(a["replay"]) as f:
            name, choices = f.readline().strip(), [int(x) for x in f.read().split()]
        t = [t for t in tests if t["name"] == name]
        if not t:
            print("no such test: " + name)
            return 2
        r = attempt(t[0], choices)
        print("case: " + r[2])
        print("FAILS: " + r[0] if r[0] else "passes")
        return 1 if r[0] else 0
    tier, seed, scale, tmp = a.get("tier", "quick"), int(a.get("seed", "1")), float(a.get("scale", "1")), a["tmp"]
    workers, rc, out = int(a.get("workers", "8")), 0, []
    if "test" in a:
        tests = [t for t in tests if t["name"] == a["test"]]
    if not tests:
        print("no tests for property " + prop, file=sys.stderr)
        return 2
    for t in tests:
        n = max(1, int(t[tier] * scale))
        s = run_test(t, prop, seed, n, workers, tmp)
        o = {"name": t["name"], "rule": t["rule"], "evaluations": s["evals"], "discarded": s["discarded"],
             "nontrivial": s["nontrivial"], "distinct_nontrivial": len(s["hashes"]), "labels": dict(sorted(s["labels"].items())),
             "worst_ratio_to_tolerance": dict(sorted(s["worst"].items())), "samples": s["samples"][:3], "failed": False,
             "message": "", "replay": ""}
        if s["fail"]:
            i, choices, msg = s["fail"]
            r = shrink(t, choices)
            if r is None:
                # It failed once and holds now: not a verdict this check can stand behind.
                print("%s, case %d failed and holds when run again: %s" % (t["name"], i, msg), file=sys.stderr)
                return 2
            choices, (msg, _, text) = r
            again = [attempt(t, choices)[0] for _ in range(2 if "does not end" not in msg else 0)]
            if not all(again):
                print("%s, case %d fails now and then: %s" % (t["name"], i, msg), file=sys.stderr)
                return 2
            path = os.path.join(a["replays"], "%s-%s-seed%d.replay" % (prop, t["name"], seed))
            with open(path, "w") as f:
                f.write(t["name"] + "\n" + "".join("%d\n" % v for v in choices))
            print("property %s, test %s, case %d: %s\n  shrunk case: %s" % (prop, t["name"], i, msg[8:], text))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            o.update(failed=True, message=msg[8:], replay=path)
            rc = 1
        elif s["nontrivial"] == 0:
            print("%s: no case was non-trivial" % t["name"], file=sys.stderr)
            return 2
        out.append(o)
        if rc:
            break
    with open(a["out"], "w") as f:
        json.dump({"tests": out, "known": []}, f)
    return rc

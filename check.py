#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py PROPERTY [quick|thorough] [--seed N] [--scale X] [--test NAME]
  check.py PROPERTY --replay FILE
  check.py --setup           builds everything, so that each check only rebuilds what changed

Builds what the check needs in _build/ (from /repo's sources), runs it, rewrites evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KEP3_ROOT", "/repo")
BUILD = os.environ.get("KEP3_CHECK_BUILD", os.path.join(HERE, "_build"))
REPLAYS = os.path.join(HERE, "replays")

# property -> (binaries that hold its tests, build variant). The sanitized runs repeat a share of every test of other
# properties: their violations are crashes, not wrong numbers.
CORE = ["K01:c_anomalies", "K02:c_anomalies", "K03:c_elements", "K04:c_elements", "K05:c_elements",
        "K06:c_propagate", "K07:c_propagate", "K08:c_propagate", "K09:c_lambert", "K10:c_lambert", "K11:c_lambert",
        "K12:c_leg", "K13:c_leg", "K14:c_leg", "K15:c_leg", "K16:c_epoch", "K17:c_epoch",
        "K18:c_planet", "K19:c_planet", "K20:c_planet", "K21:c_planet",
        "K22:c_taylor", "K23:c_taylor", "K24:c_taylor", "K25:c_taylor", "K26:c_taylor", "K27:c_vsop", "K28:c_threads:tsan"]
BINARY = {x.split(":")[0]: x.split(":")[1] for x in CORE}
# K29 repeats the tests of all the others under the address and undefined-behaviour sanitizers.
SANITIZED = "K29"
SANITIZED_SCALE = {"quick": 0.1, "thorough": 0.5}
SANITIZED_BINARIES = sorted({b for p, b in BINARY.items() if b != "c_threads"} | {"c_any"})
# Tests of the Python package: an extension built from /repo's bindings and the Python files as they are.
PYTHON = ["K30", "K31", "K32", "K33", "K34", "K35", "K36", "K37"]
EXTENSION = "pykep_core"
INTERPRETER = next((x for x in (shutil.which("python3-vt"), "/opt/veriftools/pyvenv/bin/python3") if x), sys.executable)
VARIANT = {x.split(":")[0]: (x.split(":") + ["plain"])[2] for x in CORE}


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def build(variant, targets):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        log = os.path.join(BUILD, variant + ".log")
        with open(log, "w") as f:
            cmds = [["cmake", "-G", "Ninja", "-S", os.path.join(HERE, "harness"), "-B", d, "-DKEP3_ROOT=" + REPO,
                     "-DCMAKE_BUILD_TYPE=", "-DKEP3_VARIANT=" + variant]
                    + (["-DKEP3_PYTHON_INCLUDE=" + python_include()] if EXTENSION in targets else []),
                    ["ninja", "-C", d] + targets]
            for c in cmds:
                if subprocess.run(c, stdout=f, stderr=subprocess.STDOUT).returncode != 0:
                    with open(log) as g:
                        sys.stderr.write(g.read()[-4000:])
                    die("build failed: " + " ".join(c))
    return d


def python_include():
    code = "import sysconfig; print(sysconfig.get_paths()['include'])"
    return subprocess.run([INTERPRETER, "-c", code], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def package(extension, tmp):
    """pykep put together in a scratch folder."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, "pyharness"))
    from assemble import assemble
    site = os.path.join(tmp, "site")
    os.mkdir(site)
    assemble(site, REPO, os.path.join(extension, EXTENSION + ".so"))
    return site


def known_ids(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        d = json.load(f)
    return [k["id"] for k in d.get("known", []) if k["property"] == prop]


def main():
    a = sys.argv[1:]
    if not a:
        die("which property?")
    if a[0] == "--setup":
        for v in sorted(set(VARIANT.values())):
            build(v, sorted({BINARY[p] for p in BINARY if VARIANT[p] == v}))
        build("asan", SANITIZED_BINARIES)
        build("plain", [EXTENSION])
        return
    prop, a = a[0], a[1:]
    tier, seed, scale, test, replay = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), "1", "", None
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--scale":
            scale = a.pop(0)
        elif x == "--test":
            test = a.pop(0)
        elif x == "--replay":
            replay = os.path.abspath(a.pop(0))
        else:
            die("unknown argument " + x)
    if prop not in BINARY and prop not in PYTHON and prop != SANITIZED:
        die("unknown property " + prop)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    variant = "plain" if prop in PYTHON else VARIANT.get(prop, "asan")
    binaries = [EXTENSION] if prop in PYTHON else [BINARY[prop]] if prop in BINARY else SANITIZED_BINARIES
    if replay and prop == SANITIZED:
        binaries = [os.path.basename(replay).split("-")[1]]
    d = build(variant, binaries)
    tmp = tempfile.mkdtemp(prefix="kep3chk")
    # Freed and fresh memory is filled with a pattern, so that reading it does not go unnoticed by luck.
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TZ="UTC", LC_ALL="C")
    if variant == "plain":
        env["MALLOC_PERTURB_"] = "165"
    env.pop("PBT_LENIENT", None)
    r = {"tests": [], "known": []}
    rc = 0
    try:
        for b in binaries:
            if prop in PYTHON:
                cmd = [INTERPRETER, os.path.join(HERE, "pyharness", "run.py"), package(d, tmp), "--property", prop]
            else:
                cmd = [os.path.join(d, b)]
                cmd += ["--property", prop] if prop in BINARY else ["--as", prop, "--tag", prop + "-" + b]
            if replay:
                sys.exit(subprocess.run(cmd + ["--replay", replay], env=env, cwd=tmp).returncode)
            known = os.path.join(tmp, "known")
            with open(known, "w") as f:
                f.write("\n".join(known_ids(prop)) + "\n")
            out = os.path.join(tmp, "out.json")
            if os.path.exists(out):
                os.remove(out)
            own = prop != SANITIZED or b == "c_any" # tests of this property, not repeated ones
            s = float(scale) * (1. if own else SANITIZED_SCALE[tier])
            cmd += ["--tier", tier if own else "quick", "--seed", str(seed), "--workers", "8", "--scale", str(s),
                    "--tmp", tmp, "--replays", REPLAYS, "--out", out, "--known", known]
            if test:
                cmd += ["--test", test]
            rc = subprocess.run(cmd, env=env, cwd=tmp).returncode
            if rc == 2 and test and prop == SANITIZED:
                rc = 0
                continue
            if rc not in (0, 1) or not os.path.exists(out):
                die("the check ended with %s" % rc)
            with open(out) as f:
                x = json.load(f)
            r["tests"] += x["tests"]
            r["known"] += x.get("known", [])
            if rc:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tests = r["tests"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests),
            "distinct_nontrivial": sum(t["distinct_nontrivial"] for t in tests),
            "rule": "Each case is a sequence of 64-bit choices drawn from a generator seeded by (VERIF_SEED, property/test, "
                    "case index); distinct by the hash of the choices. Non-trivial, per test: "
                    + "; ".join(t["name"] + ": " + t["rule"] for t in tests),
            "samples": [t["name"] + ": " + s for t in tests for s in t["samples"][:3]],
            "discarded": sum(t["discarded"] for t in tests),
            "tests": [{k: t[k] for k in ("name", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "labels",
                                         "worst_ratio_to_tolerance")} for t in tests],
            "known_findings": r.get("known", []),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["tolerances are rounding-error bounds (worst observed ratio listed per quantity), see DESIGN.md"],
        "violations": [{"test": t["name"], "message": t["message"], "replay": t["replay"]} for t in tests if t["failed"]],
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %.0f s%s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"],
        "" if rc == 0 else ", VIOLATED"))
    sys.exit(rc)


main()

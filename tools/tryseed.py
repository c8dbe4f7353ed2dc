#!/usr/bin/env python3
"""For each planted change: demo on the unchanged tree, then with the change: build, stable tests, demo, check. tryseed.py [ids]"""
import json, os, subprocess, sys
V = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(V))
def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/repo", **k)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain", "-uno"])
subprocess.check_call(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL)
for i in ids:
    d = V + "/" + i
    meta = json.load(open(d + "/meta.json"))
    clean = run([d + "/demo.sh"]).returncode
    r = run(["git", "apply", d + "/patch.diff"])
    try:
        assert r.returncode == 0, r.stdout
        b = run(["bash", "/opt/vp/build.sh"]).returncode
        t = run(["bash", "/opt/vp/test.sh", "/tmp/ts.json"])
        failed = json.load(open("/tmp/ts.json"))["failed"]
        dm = run([d + "/demo.sh"])
        c = run(["/verif/check.py", meta["property"], "quick"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    line = [l for l in c.stdout.splitlines() if "VIOLATION" in l][:1]
    print("%-28s %s clean=%d build=%d failed=%s demo=%d check=%d %s" % (i, meta["property"], clean, b, failed, dm.returncode, c.returncode, line), flush=True)
    if clean or not dm.returncode: print(dm.stdout[-1500:])
    if c.returncode not in (0, 1): print(c.stdout[-2000:])
subprocess.check_call(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL)

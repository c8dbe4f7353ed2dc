#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description file (python, defines SEEDS). Run by hand: mkseed.py FILE [ids]
Applies each change to /repo, takes its diff, undoes it."""
import json, os, shutil, subprocess, sys
REPO = "/repo"; OUT = "/verif/seeded"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ALL = "src/linalg.cpp src/lambert_problem.cpp src/leg/sims_flanagan.cpp src/leg/sf_checks.cpp src/core_astro/ic2par2ic.cpp src/core_astro/ic2eq2ic.cpp src/core_astro/eq2par2eq.cpp src/core_astro/stm.cpp src/core_astro/propagate_lagrangian.cpp".split()
HEAD = '''#!/bin/bash
# exit 0 if the library behaves as it should, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
PYSH = '''py=$(command -v python3-vt) || py=/opt/veriftools/pyvenv/bin/python3
inc=$("$py" -c "import sysconfig; print(sysconfig.get_paths()['include'])") || exit 2
flags="-std=gnu++20 -O0 -w -fPIC -fvisibility=hidden -DBOOST_ALLOW_DEPRECATED_HEADERS -I$here/shim -I$inc -I/repo/pykep -I/repo/include -I/repo/_build/include"
srcs=$(sed 's/#.*//' /repo/CMakeLists.txt | tr '\\n' ' ' | sed 's/.*set(kep3_SRC_FILES\\([^)]*\\)).*/\\1/' | grep -o 'src/[A-Za-z0-9_/.-]*\\.cpp' | sed 's,^,/repo/,')
n=0
for f in "$here/pyglue.cpp" /repo/pykep/*.cpp $srcs; do
    echo "$f $tmp/$n.o"
    n=$((n + 1))
done | xargs -P 8 -L 1 sh -c 'g++ '"$flags"' -c "$0" -o "$1"' || exit 2
mkdir "$tmp/site" || exit 2
cp -r /repo/pykep "$tmp/site/pykep" || exit 2
sed 's/@[A-Za-z_0-9]*@/0/' /repo/pykep/_version.py.in > "$tmp/site/pykep/_version.py"
g++ -shared "$tmp"/*.o -o "$tmp/site/pykep/core.so" -lboost_serialization -lfmt -llapack -lblas -lquadmath -lpthread || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$tmp/site:$here/fakes" "$py" -W ignore "$here/demo.py"
'''
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain", "-uno"])
    try:
        for f, a, b in s["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(a) == 1, (s["id"], f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if "files" in s:
        for n, t in s["files"].items():
            open(d + "/" + n, "w").write(t)
    if "sh" in s:
        if s.get("shim"):
            shutil.copytree("/verif/harness/shim", d + "/shim")
        sh = HEAD + s["sh"]
    elif "py" in s:
        # pykep with stand-ins for pybind11, heyoka and the Python packages it uses, all beside the demo
        skip = shutil.ignore_patterns("__pycache__")
        shutil.copytree("/verif/harness/shim", d + "/shim", ignore=skip)
        shutil.copytree("/verif/pyharness/fakes", d + "/fakes", ignore=skip)
        shutil.copyfile("/verif/harness/pyglue.cpp", d + "/pyglue.cpp")
        open(d + "/demo.py", "w").write(s["py"])
        sh = HEAD + PYSH
    else:
        open(d + "/demo.cpp", "w").write(s["demo"])
        inc = ""
        if s.get("shim"):
            shutil.copytree("/verif/harness/shim", d + "/shim")
            inc = '-I"$here/shim" '
        srcs = " ".join("/repo/" + x for x in s.get("srcs", []))
        sh = HEAD + ('flags="-std=c++20 -O1 -w -DBOOST_ALLOW_DEPRECATED_HEADERS %s-I/repo/include -I/repo/_build/include"\n'
              'n=0\npids=()\nfor f in "$here/demo.cpp" %s; do\n    g++ $flags -c "$f" -o "$tmp/$n.o" &\n    pids+=($!)\n    n=$((n + 1))\ndone\n'
              'for p in "${pids[@]}"; do\n    wait "$p" || exit 2\ndone\n'
              'g++ "$tmp"/*.o -o "$tmp/demo" -lboost_serialization -lfmt -llapack -lblas -lquadmath || exit 2\n"$tmp/demo"\n') % (inc.replace('"$here/shim"', '$here/shim'), srcs)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])

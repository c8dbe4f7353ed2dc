"""Puts pykep together in a scratch folder: the Python files of the working tree, the extension built from its C++ files."""
import os
import re
import shutil


def assemble(dest, repo, extension):
    src, pkg = os.path.join(repo, "pykep"), os.path.join(dest, "pykep")
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        out = os.path.join(pkg, os.path.relpath(d, src))
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f.endswith((".py", ".txt", ".bsp")) and f != "CMakeLists.txt":
                shutil.copyfile(os.path.join(d, f), os.path.join(out, f))
    with open(os.path.join(repo, "CMakeLists.txt")) as f:
        version = re.search(r"project\(kep3 VERSION ([0-9.]+)", f.read()).group(1)
    with open(os.path.join(src, "_version.py.in")) as f:
        text = f.read()
    with open(os.path.join(pkg, "_version.py"), "w") as f:
        f.write(re.sub(r"@[A-Za-z_0-9]+@", version, text))
    os.symlink(extension, os.path.join(pkg, "core.so"))

"""Rebuilds YLearn's Cython extensions in place, by the content of the sources rather than their times.

cythonize and build_ext compare modification times only, so the generated .cpp of every source
whose hash has changed since the last successful build is deleted first. Run in /repo."""

import glob
import hashlib
import json
import os
import subprocess
import sys

STAMP = "build/vp-stamp.json"


def find(ext):
    return sorted(glob.glob(f"ylearn/**/*{ext}", recursive=True))


def generated(cpp):
    with open(cpp, "rb") as f:
        return f.read(40).startswith(b"/* Generated by Cython")


def main():
    pyx = find(".pyx")
    gen = [c for c in find(".cpp") if generated(c)]
    shared = [f for f in find(".pxd") + find(".pxi") + find(".h") + find(".cpp") if f not in gen]
    sources = pyx + shared + ["setup.py"]
    now = {f: hashlib.sha256(open(f, "rb").read()).hexdigest() for f in sources if os.path.exists(f)}
    try:
        old = json.load(open(STAMP))
    except (OSError, ValueError):
        old = {}
    changed = {f for f in set(now) | set(old) if now.get(f) != old.get(f)}
    everything = any(not f.endswith(".pyx") for f in changed)

    for cpp in gen:
        src = cpp[:-4] + ".pyx"
        if everything or src in changed or src not in now:
            os.remove(cpp)
    # compiled modules whose source has gone, or is about to be rebuilt
    for base in ("ylearn", "build"):
        for so in glob.glob(f"{base}/**/*.so", recursive=True):
            src = so.split(".cpython")[0]
            src = src[src.index("ylearn/"):] + ".pyx"
            if everything or src in changed or src not in now:
                os.remove(so)

    if changed and os.path.exists(STAMP):
        os.remove(STAMP)
        keep = {} if everything else {f: h for f, h in old.items() if f not in changed}
        with open(STAMP, "w") as f:
            json.dump(keep, f)
    code = subprocess.call([sys.executable, "setup.py", "build_ext", "--inplace", "-j", str(os.cpu_count() or 2)])
    if code:
        return 1
    missing = [p for p in pyx if not glob.glob(p[:-4] + ".cpython-*.so")]
    if missing:
        print("not built:", missing, file=sys.stderr)
        return 1
    os.makedirs("build", exist_ok=True)
    with open(STAMP, "w") as f:
        json.dump(now, f)
    return 0


sys.exit(main())

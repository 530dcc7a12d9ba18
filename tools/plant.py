"""Plant bugs: build /verif/seeded/<id>/ from a definitions file, confirming each one.

usage: plant.py DEFS.py [id ...]     (development tool; no check uses it)

DEFS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new[, occurrence])],
needs, breaks, demo (python source).  Each is applied in a scratch copy of /repo, must keep
the tests passing, and its demo must exit 0 without and non-zero with the change.
"""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("PLANT_BASE", "/repo")
PY = "/opt/venv/bin/python"
PRELUDE = '''import os, sys, warnings
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
warnings.filterwarnings("ignore")
import numpy as np
import torch
from scipy.stats import norm, uniform
import pocomc as pc
torch.set_num_threads(1)


def broken(msg):
    print("BROKEN:", msg)
    sys.exit(1)


'''
DEMO_SH = '''#!/bin/bash
# exit 0 if the property holds on the code imported from the current directory
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex)


def edit(root, edits):
    for ed in edits:
        f, old, new = ed[:3]
        occ = ed[3] if len(ed) > 3 else None
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        if occ is None:
            assert n == 1, f"{f}: {n} matches of {old!r}"
            s = s.replace(old, new)
        else:
            assert n > occ, f"{f}: {n} matches"
            i = -1
            for _ in range(occ + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)


def build(b):
    d = f"/tmp/w/pl_{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d, symlinks=True)
    try:
        edit(d, b["edits"])
    except AssertionError as ex:
        shutil.rmtree(d)
        return b["id"], False, f"edit: {ex}"
    out = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    rc, diff = sh(["git", "diff"], d)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(PRELUDE + b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    demo = os.path.join(out, "demo.sh")
    msgs = []
    rc0, o0 = sh([demo], BASE, timeout=280)
    rc1, o1 = sh([demo], d, timeout=280)
    ok = rc0 == 0 and rc1 not in (0, 124)
    if rc0:
        msgs.append(f"clean demo rc={rc0}: {o0[-600:]}")
    msgs.append(f"patched demo rc={rc1}: {o1[-300:]}")
    if ok:
        rc2, o2 = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", d + "/tests"], d, {"PYTHONPATH": d}, 900)
        ok = rc2 == 0
        if rc2:
            msgs.append("TESTS: " + o2[-800:])
    shutil.rmtree(d)
    if not ok:
        os.makedirs("/tmp/w/rejected", exist_ok=True)
        shutil.rmtree("/tmp/w/rejected/" + b["id"], ignore_errors=True)
        shutil.move(out, "/tmp/w/rejected/" + b["id"])
    return b["id"], ok, " | ".join(msgs)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    todo = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for i, ok, m in ex.map(build, todo):
            print(("OK  " if ok else "FAIL"), i, m, flush=True)

#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions in seeds.py and confirm each:
applies to HEAD, changes original lines only, the stable tests pass, the demo
exits 0 without and nonzero with the change.   mkseeds.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402
ROOT = os.path.dirname(HERE)
BASE = "c41ad88"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          capture_output=True, **k)


def one(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    for f in ("demolib.py", "demo.sh"):
        shutil.copy(os.path.join(HERE, "seedsrc", f), d)
    shutil.copy(os.path.join(ROOT, "rt", "catalog.py"), d)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(s["demo"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]}, f, indent=1)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = os.path.join(t, "repo")
        sh(f"git clone -q /repo {w}", "/")
        orig = sh(f"git blame -s HEAD -- sofar/{s['file']}", w).stdout
        r = sh(f"bash {d}/demo.sh", w, timeout=300)
        if r.returncode:
            return f"demo fails on the unchanged tree: {r.stderr[-800:]}"
        p = os.path.join(w, "sofar", s["file"])
        src = open(p).read()
        for old, new in s["edits"]:
            if src.count(old) != 1:
                return f"{src.count(old)} matches of {old!r}"
            src = src.replace(old, new)
        open(p, "w").write(src)
        diff = sh("git diff -U3", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed lines must be original
        d0 = sh("git diff -U0", w).stdout
        lines = orig.splitlines()
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", d0, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                if not lines[i - 1].startswith("^" + BASE):
                    return f"line {i} is not original: {lines[i-1]}"
        r = sh(f"bash {d}/demo.sh", w, timeout=300)
        if r.returncode == 0:
            return "demo does not fail with the change"
        t_ = " ".join(x.replace("tests.", "tests/").replace("::", ".py::")
                      for x in STABLE)
        r2 = sh(f"/opt/venv/bin/python -m pytest -q -x {t_}", w,
                env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1"))
        if r2.returncode:
            return "stable tests fail: " + r2.stdout[-600:]
        return "ok: " + (r.stderr.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    for s in SEEDS:
        if len(sys.argv) < 2 or s["id"] in sys.argv[1:]:
            print(s["id"], s["property"], one(s), flush=True)

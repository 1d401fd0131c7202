"""python3-vt -m pyvc.prove ID: discharge the obligations of a property."""
import argparse
import json
import sys
import traceback
from .prover import Prover


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--budget", type=float, default=200)
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from . import props
    p = Prover(a.root, a.budget)
    p.jobs = a.jobs
    f = getattr(props, a.prop, None)
    if f is not None:
        try:
            f(p)
        except Exception:
            p.add(f"{a.prop}: remaining obligations", "unknown",
                  "engine: " + traceback.format_exc()[-400:])
            if a.v:
                raise
    p.finish()
    ob = p.obligations
    if a.v:
        for o in ob:
            print(f"{o['status']:9} {o['vcs']:3} {o['time']:6.2f}s "
                  f"{o['name']}  {o['reason']}")
        print(p.vacuity, p.stats.by, round(p.stats.time, 1))
        return
    print(json.dumps({
        "obligations": ob, "complete": getattr(p, "complete", False),
        "level": "proof" if getattr(p, "complete", False) else "other",
        "functions": sorted({x for v in p.functions.values() for x in v}),
        "backends": p.stats.by, "solver_time": round(p.stats.time, 2),
        "trusted": sorted(p.trusted) + sorted(
            f"library: {x}" for x in p.lib_used),
        "vacuity": p.vacuity, "bounded": p.bounded,
        "assumptions": getattr(p, "assumptions", []),
        "explanation": getattr(p, "explanation", "")}))


if __name__ == "__main__":
    main()

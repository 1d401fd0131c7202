#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough]

1. The verification conditions of the functions under contract are generated
   from the current source of /repo and discharged (pyvc/, python3-vt).
2. The contracts are replayed against the running code (rt/): concrete
   executions judged by the same specification. This finds the failing input
   of a refuted obligation, and is the bounded stand-in for functions outside
   the reach of the verifier.

Exit 0: property held; 1: VIOLATION printed; 2: the check could not run.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RUNTIME = "/opt/venv/bin/python"
PROVER = "python3-vt"
OUT = os.path.join(HERE, "out")
BUDGET = {"quick": (280, 200), "thorough": (420, 420)}   # prove, run


def start(cmd, timeout, log):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen(
        ["timeout", "-k", "5", str(timeout)] + cmd, cwd=HERE, env=env,
        stdout=subprocess.PIPE, stderr=open(log, "w"), text=True)


def result(p, log):
    out, _ = p.communicate()
    try:
        return json.loads(out[out.index("{"):])
    except ValueError:
        with open(log) as f:
            return {"crash": f"exit {p.returncode}: {f.read()[-1500:]}"}


def known(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                key, _, text = line.strip().split(" ", 2)[2].partition(" ")
                out.append((key, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bp, br = BUDGET[tier]
    log = os.path.join(OUT, f"{prop}.%s.log")
    prove_cmd = [PROVER, "-m", "pyvc.prove", prop, "--budget", str(bp)]
    p1 = start(prove_cmd, bp + 60, log % "prove")
    p2 = start([RUNTIME, "rt/run.py", prop, "--seed", str(seed), "--tier",
                tier, "--budget", str(br)] +
               [x for k, _ in known(prop) for x in ("--known", k)],
               br + 120, log % "run")
    run = result(p2, log % "run")
    proof = result(p1, log % "prove")
    fails = run.get("fails", [])
    obl = proof.get("obligations", [])
    refuted = [o for o in obl if o["status"] == "refuted"]
    undecided = [o for o in obl if o["status"] not in ("refuted", "proved")]
    code, lines = 0, []
    for key, text in known(prop):
        if key in run.get("known", []):
            lines.append(f"KNOWN-FINDING: property={prop} {text}")
    if fails:
        code = 1
        path = os.path.join(OUT, f"replay-{prop}.json")
        f = fails[0]
        with open(path, "w") as fid:
            json.dump({
                "property": prop, "message": f["message"],
                "replay_cmd": f"cd /verif && {RUNTIME} rt/run.py {prop} "
                f"--seed {seed} --replay {f['variant']}:{f['index']}",
                "calls": f["trace"],
                "failed_obligations": [o["name"] for o in refuted],
            }, fid, indent=1)
        lines.append(f"{prop}: {f['message']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    elif refuted:
        code = 1
        path = os.path.join(OUT, f"replay-{prop}.json")
        with open(path, "w") as fid:
            json.dump({"property": prop, "failed_obligations": refuted,
                       "verifier": " ".join(prove_cmd)}, fid, indent=1)
        for o in refuted[:5]:
            lines.append(f"{prop}: obligation {o['name']} is refuted")
        lines.append(f"VIOLATION property={prop} replay={path} "
                     "no-failing-input-found")
    elif "crash" in run or run.get("cases", 0) == 0:
        code = 2
        lines.append(f"{prop}: the executions could not be run: "
                     f"{run.get('crash') or run.get('errors')}")
    wall = time.time() - t0
    proved = [o for o in obl if o["status"] == "proved"]
    complete = bool(obl) and not undecided and not refuted and \
        proof.get("complete", False)
    level = proof.get("level", "other") if obl else "exploration"
    cov = {
        "obligations": len(obl), "discharged": len(proved),
        "undecided": [o["name"] + ": " + o.get("reason", "")[:200]
                      for o in undecided],
        "complete": complete,
        "functions_under_contract": proof.get("functions", []),
        "backends": proof.get("backends", {}),
        "solver_time_s": proof.get("solver_time", 0),
        "checker_cmd": f"cd /verif && {' '.join(prove_cmd)}",
        "trusted_base": proof.get("trusted", []),
        "vacuity": proof.get("vacuity", {}),
        "prover_crash": proof.get("crash", ""),
        "bounded_part": proof.get("bounded", []),
        "evaluations": run.get("cases", 0),
        "distinct_nontrivial": run.get("distinct", 0),
        "rule": "random histories of calls on objects over random "
                f"catalogues ({run.get('catalogues', 0)} catalogues), seed "
                f"{seed}; a case is non trivial if it makes more than one "
                "call, and distinct if its calls and results differ",
        "samples": run.get("samples", []) or [[]],
        "harness_errors": run.get("nerrors", 0),
        "explanation": proof.get("explanation", ""),
    }
    if level == "proof" and not complete:
        level = "other"
    if not cov["explanation"]:
        cov["explanation"] = (
            f"{len(proved)} of {len(obl)} obligations discharged on this "
            "run; the rest of the property is covered by the bounded part "
            "(concrete executions), which is not counted as proved")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": proof.get("assumptions", []),
          "violations": len(fails) + len(refuted)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    lines.insert(0, f"{prop}: {len(proved)}/{len(obl)} obligations "
                 f"discharged, {run.get('cases', 0)} executions, "
                 f"{wall:.0f} s")
    print("\n".join(lines))
    sys.exit(code)


if __name__ == "__main__":
    main()

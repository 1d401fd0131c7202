"""Run random cases of one property; print a JSON report."""
import argparse
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy      # noqa: E402,F401
import netCDF4    # noqa: E402,F401
import requests   # noqa: E402,F401
import bs4        # noqa: E402,F401
import packaging.version  # noqa: E402,F401
import world      # noqa: E402

PLAN = {  # property -> (variants, cases per variant) for quick
    "C06": (48, 12), "C07": (32, 20), "C26": (8, 40), "C27": (8, 150),
    "C05": (8, 60), "C01": (16, 40), "C02": (16, 40), "C11": (24, 50),
    "C12": (16, 50), "C13": (24, 20), "C23": (40, 25), "C14": (16, 40),
}


# properties that start from valid objects
TAME = {"C17", "C18", "C20", "C16", "C21"}


def one(prop, w, rng, want_trace=False):
    from gen import Gen, Failed
    import props
    g = Gen(w, rng)
    try:
        fs = [props.CASES[prop]] + props.EXTRA.get(prop, [])
        f = fs[0] if len(fs) == 1 or rng.random() < .7 else fs[1]
        f(g)
        return None, g
    except Failed as e:
        return (e.prop, e.msg), g


def shard(args):
    prop, seed, variant, n, first, deadline = args
    res = {"cases": 0, "other": 0, "fail": None, "steps": 0, "error": None,
           "distinct": [], "sample": None}
    w = world.World(variant, seed, tame=prop in TAME)
    try:
        w.load()
        for i in range(first, first + n):
            if time.time() > deadline:
                break
            rng = random.Random(f"{prop}:{seed}:{variant}:{i}")
            try:
                bad, g = one(prop, w, rng)
            except Exception:
                res["error"] = (i, traceback.format_exc()[-1500:])
                continue
            res["cases"] += 1
            res["steps"] += len(g.trace)
            if len(g.trace) > 1:
                res["distinct"].append(hash(tuple(g.trace)))
            if res["sample"] is None and len(g.trace) > 2:
                res["sample"] = g.trace[:12]
            if bad is not None:
                if bad[0] == prop:
                    res["fail"] = {"index": i, "variant": variant,
                                   "message": bad[1], "trace": g.trace}
                    break
                res["other"] += 1
    except Exception:
        res["error"] = (-1, traceback.format_exc()[-1500:])
    finally:
        w.close()
    return res


def explore(prop, seed, tier, budget=None, scale=1.0, workers=8):
    v, n = PLAN.get(prop, (24, 30))
    n *= 4
    if tier == "thorough":
        v, n = v * 6, n * 2
    n = max(1, int(n * scale))
    deadline = time.time() + (budget or (150 if tier == "quick" else 700))
    jobs = [(prop, seed, k, n, 0, deadline) for k in range(v)]
    ctx = mp.get_context("fork")
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        rs = pool.map(shard, jobs, chunksize=1)
    out = {"property": prop, "seed": seed, "tier": tier,
           "cases": sum(r["cases"] for r in rs),
           "steps": sum(r["steps"] for r in rs),
           "distinct": len({h for r in rs for h in r["distinct"]}),
           "other": sum(r["other"] for r in rs),
           "catalogues": v,
           "errors": [r["error"] for r in rs if r["error"]][:3],
           "nerrors": sum(1 for r in rs if r["error"]),
           "fails": [r["fail"] for r in rs if r["fail"]],
           "samples": [r["sample"] for r in rs if r["sample"]][:2]}
    return out


def known_finding(key, seed):
    """Does the listed finding still occur?"""
    from gen import Call
    w = world.World(0, seed)
    try:
        sf = w.load()
        if key == "nonascii-string":
            s = sf.Sofa("GeneralFIR", verify=False)
            s.add_variable("xNote", "caf\u00e9", "string", "IS")
            c = Call(sf.write_sofa, os.path.join(w.tmp, "k.sofa"), s)
            return isinstance(c.exc, UnicodeEncodeError)
    except Exception:
        pass
    finally:
        w.close()
    return False


if __name__ == "__main__":
    warnings.simplefilter("ignore")
    os.environ["PYTHONHASHSEED"] = "0"
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--replay", help="variant:index")
    a = ap.parse_args()
    if a.replay:
        v, i = map(int, a.replay.split(":"))
        w = world.World(v, a.seed, tame=a.prop in TAME)
        try:
            w.load()
            bad, g = one(a.prop, w, random.Random(
                f"{a.prop}:{a.seed}:{v}:{i}"))
        finally:
            w.close()
        print("\n".join(g.trace))
        print("VIOLATED" if bad else "held", bad)
        sys.exit(1 if bad else 0)
    res = explore(a.prop, a.seed, a.tier, a.budget, a.scale)
    res["known"] = [k for k in a.known if known_finding(k, a.seed)]
    print(json.dumps(res))

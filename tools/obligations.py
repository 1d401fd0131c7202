"""Write OBLIGATIONS.md: every obligation, discharged from /repo's source.

python3 tools/obligations.py [ROOT]   (takes about ten minutes)
"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
out = ["# Obligations", "",
       "Written by `tools/obligations.py` from `/repo`'s source. "
       "A VC is one exit of a function (or one case of a merged exit).", ""]
table = ["| property | obligations | proved | VCs | functions executed |",
         "|---|---|---|---|---|"]
body = []
trusted = set()
for p in props:
    r = subprocess.run(["python3-vt", "-m", "pyvc.prove", p["id"],
                        "--budget", "400", "--root", root], cwd=HERE,
                       capture_output=True, text=True).stdout
    d = json.loads(r[r.index("{"):])
    ob = d["obligations"]
    ok = [o for o in ob if o["status"] == "proved"]
    table.append(f"| {p['id']} | {len(ob)} | {len(ok)} | "
                 f"{sum(o['vcs'] for o in ob)} | {len(d['functions'])} |")
    trusted |= set(d["trusted"])
    body += ["", f"## {p['id']} {p.get('title', '')}", ""]
    if not ob:
        body.append("No obligation: bounded executions only.")
        continue
    body += [f"* {o['status']}: {o['name']} ({o['vcs']} VC)"
             + (f" — {o['reason'][:200]}" if o["status"] != "proved" else "")
             for o in ob]
    body += ["", "Functions: " + ", ".join(f"`{f}`" for f in d["functions"])]
    print(table[-1], d.get("vacuity"), flush=True)
body += ["", "## Trusted", ""] + [f"* {x}" for x in sorted(trusted)]
with open(os.path.join(HERE, "OBLIGATIONS.md"), "w") as f:
    f.write("\n".join(out + table + body) + "\n")

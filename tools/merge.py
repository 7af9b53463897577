#!/usr/bin/env python3
"""merge.py OUT PART...: one evidence file from the parts several simulations wrote."""
import json, os, sys
out, parts = sys.argv[1], sys.argv[2:]
ev = [json.load(open(p)) for p in parts if os.path.exists(p)]
if not ev:
    sys.exit(1)
c = {"simulations": {}}
for e in ev:
    x = e["coverage"]
    c["simulations"][x["simulation"]] = {k: v for k, v in x.items() if k not in ("samples", "operations", "other_counts", "components_real", "components_stand_in", "rule")}
    for k in ("evaluations", "distinct_nontrivial", "distinct_runs_by_trace_hash", "distinct_abstract_states", "simulated_hours", "runs_re_executed_and_compared"):
        c[k] = c.get(k, 0) + x[k]
    for k in ("components_real", "components_stand_in"):
        c[k] = sorted(set(c.get(k, [])) | set(x[k]))
    for k, v in x["faults_injected"].items():
        f = c.setdefault("faults_injected", {})
        f[k] = f.get(k, 0) + v
    c.setdefault("samples", []).extend({"simulation": x["simulation"], **s} for s in x["samples"][:1])
if len(ev) == 1:
    c["rule"] = ev[0]["coverage"]["rule"]
else:
    c["rule"] = "runs of every simulation; a run counts once per distinct trace, after each of its blocks was executed again on its parent state and the whole run was repeated from its seed and compared"
wall = sum(e["wall_s"] for e in ev)
c["runs_per_hour"] = c["evaluations"] / max(wall, 0.001) * 3600
a = []
for e in ev:
    a += [x for x in e.get("assumptions", []) if x not in a]
json.dump({**{k: ev[0][k] for k in ("property", "tier", "seed", "level")}, "coverage": c, "assumptions": a, "wall_s": wall, "violations": sum(e["violations"] for e in ev)}, open(out, "w"), indent=1)
for p in parts:
    if os.path.exists(p):
        os.remove(p)

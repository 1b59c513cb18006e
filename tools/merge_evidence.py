#!/usr/bin/env python3
"""Merge the evidence of the monitors that together decide one property."""
import glob, json, os, sys
d, pid = sys.argv[1], sys.argv[2]
parts = sorted(glob.glob(os.path.join(d, pid + ".*.part.json")))
if not parts:
    sys.exit("no evidence parts for " + pid)
es = [(os.path.basename(p).split(".")[1], json.load(open(p))) for p in parts]
out = dict(es[0][1])
cov = {
    "evaluations": sum(e["coverage"]["evaluations"] for _, e in es),
    "distinct_nontrivial": sum(e["coverage"]["distinct_nontrivial"] for _, e in es),
    "rule": " || ".join("%s: %s" % (n, e["coverage"]["rule"]) for n, e in es),
    "observed": {n + ": " + k: v for n, e in es for k, v in e["coverage"].get("observed", {}).items()},
    "samples": [s for _, e in es for s in e["coverage"]["samples"]],
}
out["coverage"] = cov
out["assumptions"] = [a for _, e in es for a in e.get("assumptions", [])]
out["wall_s"] = round(sum(e["wall_s"] for _, e in es), 3)
out["violations"] = sum(e.get("violations", 0) for _, e in es)
with open(os.path.join(d, pid + ".json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
for p in parts:
    os.remove(p)

#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(here, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    t = T["checks"].get(i)
    if t is None:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bash check.sh %s quick" % i,
        "thorough_cmd": "bash check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t["technique"],
        "level": t.get("level", "exploration"),
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "harness/space-sut/build.rs and harness/storage-sut/build.rs emit cargo:rustc-cfg=verif_hooks for the package whose library root is /repo's main.rs",
        "source_commits": T["hook_commits"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": T.get("notes", ""),
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

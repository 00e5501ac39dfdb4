#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from
tools/propdefs.py (texts) and harness/props.json (what is built)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import propdefs
built = json.load(open(os.path.join(V, "harness/props.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in propdefs.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in propdefs.PROPS:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + p["how"],
            "level": "exploration",
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": p.get("na", "no check built yet")})
m = {"version": 1,
     "setup_cmd": "python3 tools/vb.py all",
     "hooks": {"guard": "LIBCOMMON_SIM", "enable": "tools/vb.py compiles a shadow copy of /repo's working tree with -DLIBCOMMON_SIM=1",
               "source_commits": propdefs.HOOK_COMMITS},
     "checks": checks, "not_applicable": na, "notes": propdefs.NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

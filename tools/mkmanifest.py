#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cfg = json.load(open(V + "/props.json"))
checks, na = [], []
for p in props:
    c = cfg.get(p["id"])
    if not c or c.get("not_applicable"):
        na.append({"property": p["id"], "reason": (c or {}).get("not_applicable", "not built yet: no contracts for it so far")}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", "function contracts on the real code, discharged by Verus (Z3); bounded replay harness for failing inputs"),
                   "level": "proof", "level_note": c["level_note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", 
     "hooks": {"guard": "cfg(didcomm_verif)", "enable": "RUSTFLAGS='--cfg didcomm_verif' with DIDCOMM_VERIF_HARNESS and DIDCOMM_VERIF_DIR set (check.py does this)", "source_commits": ["e3da2cd"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/bin")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
from notes import NOTES, NA
c = []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = NOTES[i]
        c.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i, evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in checks.CHECKS]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=c, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1); print(len(c), len(na))

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.techniques import T
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
        m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=m.group(1) if m else "exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 -c 'import sys; print(sys.version)'",
         hooks=dict(guard="BSDCONV_VERIFY", enable="vlib/build.py compiles a copy of /repo with -DBSDCONV_VERIFY in CFLAGS (asan, msan and tsan variants)",
                    source_commits=open(os.path.join(V, "tools", "hook_commits")).read().split()),
         checks=checks, not_applicable=na,
         notes="Every check copies /repo's sources to /verif/build/<variant>-<hash>, builds them there with sanitizers and drives the real code through harness/drv.c.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

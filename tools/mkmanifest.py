#!/usr/bin/env python3
"""Write MANIFEST.json from bin/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from registry import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'bin'); import vlib\" && g++ --version >/dev/null",
  hooks=dict(guard="none", enable="No hooks in /repo: the monitors observe the public interface, the shims under /verif/shim and compiler instrumentation.", source_commits=[]),
  checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
          technique="runtime monitoring: " + c["title"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "the monitors for this property are still being built; not claimed yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

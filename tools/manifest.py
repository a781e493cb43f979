"""Writes MANIFEST.json from properties.jsonl and the rules that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "rules"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "rules", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "path-sensitive interprocedural typestate analysis of the clang control-flow graphs"),
                       "level": "other", "level_note": getattr(m, "NOTE", (m.__doc__ or i).strip().replace("\n", " "))})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check has been built for this property yet; nothing is claimed about it")})
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh && python3 lib/facts.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

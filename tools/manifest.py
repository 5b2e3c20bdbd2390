#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + "/lib", R + "/checks"]
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = json.load(open(R + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/checks/%s.py" % i.lower()):
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not built yet.")))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="TLA+ specifications in specs/, checked with TLC; harnesses in harness/; see DESIGN.md."),
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")

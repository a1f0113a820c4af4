#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=json.load(open(os.path.join(root,"harness","checks.json")))
m={"version":1,"setup_cmd":"bash bin/setup.sh","hooks":{"guard":"verif","enable":"no hooks are needed: the checks use the exported API and the built commands only","source_commits":[]},
   "checks":[],"not_applicable":[]}
for p in props:
    c=checks.get(p["id"])
    if not c:
        m["not_applicable"].append({"property":p["id"],"reason":"check not built yet"}); continue
    m["checks"].append({"property":p["id"],"quick_cmd":"python3 bin/check.py %s quick"%p["id"],"thorough_cmd":"python3 bin/check.py %s thorough"%p["id"],
      "technique":c.get("technique","property-based testing (rapid): generated inputs against an independent reference"),
      "level":c.get("level","exploration"),
      "level_note":c.get("note","Searches generated cases for a counterexample; finding none does not prove absence. Trusts the reference implementations under harness/ref and the rapid library.")})
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not applicable")

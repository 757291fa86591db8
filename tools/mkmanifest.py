#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
import check
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
NA={
"C28":"The WITH_MPI code does not compile at this commit and no MPI implementation is installed, so a specification of agent migration could not be bound to running code.",
}
NOTES=getattr(check,"NOTES",{})
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in check.REG:
        tech,note=check.INFO.get(i,("TLA+ specification checked with TLC; trace validation of the C++ code",""))
        checks.append(dict(property=i,quick_cmd="VERIF_TIER=quick python3 check.py %s"%i if False else "python3 check.py %s"%i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py %s"%i,technique=tech,level="model_checking",level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"Check under construction: not claimed yet.")))
m=dict(version=1,setup_cmd="python3 tools/setup.py",hooks=dict(guard="ESL_VERIF_HOOKS",enable="No hooks are needed: every check observes the public API, so nothing in /repo is guarded.",source_commits=[]),
  checks=checks,not_applicable=na,
  notes="All checks share vlib.py (build, TLC, trace validation). Specifications in specs/, harnesses in harness/, drivers in checks/. See DESIGN.md.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks),"checks",len(na),"not applicable")

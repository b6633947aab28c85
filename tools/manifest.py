#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed properties
import json,subprocess
CL=json.load(open("/verif/tools/claims.json"))
NA=json.load(open("/verif/tools/na.json"))
allp=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for pid,c in sorted(CL.items()):
    checks.append({"property":pid,"quick_cmd":f"./check {pid} quick","thorough_cmd":f"./check {pid} thorough",
      "technique":"contract-based deductive verification (gover: contracts on the Go source, verification conditions from its SSA form, discharged by z3)",
      "level":c.get("level","proof"),"level_note":c["note"],"theorems":c.get("theorems",[])})
na=[{"property":p,"reason":NA.get(p,"not reached yet: no contract discharged for it so far")} for p in allp if p not in CL]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "hooks":{"guard":"none","enable":"no hooks: the checks read /repo's source as it is; searches for failing inputs go in through go test -overlay","source_commits":[]},
 "notes":"Every check rebuilds its verification conditions from /repo's current source. See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)

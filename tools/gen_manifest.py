#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA={}
try:
    from checks import NOT_APPLICABLE as NA
except ImportError: pass
m={"version":1,"setup_cmd":"python3 tools/setup.py",
 "hooks":{"guard":"none (no hooks in /repo; harness preludes and link-time interposition in /verif/harness only)","enable":"nothing to enable","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"All checks compile /repo's working tree into a scratch directory under /tmp and explore executions of that code exhaustively within the bounds stated in DESIGN.md."}
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":f"python3 run_check.py {i} quick","thorough_cmd":f"python3 run_check.py {i} thorough",
         "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c["level"],
         "level_note":c.get("note","Holds for every execution within the stated bounds (DESIGN.md); the real code is executed, so no model is trusted; trusted: the harness's reference model, compiler, libc.")})
    else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"checks",len(m["not_applicable"]),"not claimed")

#!/usr/bin/env python3
"""Regenerates the "fixed" list of known_findings.json from /repo's fix commits. Property of a new fix: pass <hash>=<id> arguments."""
import subprocess,json,sys,re
P="/verif/known_findings.json"; old=json.load(open(P))
bysubj={}
for e in old["fixed"]:
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",e); bysubj[m.group(3).strip()]=m.group(1)
arg=dict(a.split("=") for a in sys.argv[1:])
out=[]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        t=s[4:].strip(); out.append(f"fixed: property={arg.get(h) or bysubj.get(t) or '??'} {h} {t}")
old["fixed"]=out; json.dump(old,open(P,"w"),indent=1)
print([o for o in out if "=??" in o])

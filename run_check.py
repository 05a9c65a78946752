#!/usr/bin/env python3
"""Driver of all checks:  run_check.py <property> <quick|thorough>      run_check.py --replay <file>
Builds the sources of /repo's current working tree (never /repo/_build) with the harness of the property in a scratch
directory, runs the exhaustive exploration, writes evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, subprocess, hashlib, tempfile, shutil, time, glob, concurrent.futures as cf
VERIF=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("RODEO_REPO","/repo")
sys.path.insert(0,VERIF)
from checks import CHECKS
CACHE=os.environ.get("MC_CACHE","/tmp/rodeo_mc_cache")
NPROC=os.cpu_count() or 8

DIRS={ # library directory -> extra defines (as in the repository's CMake files)
 "LinearAlgebra":["-DOPENBLAS"],"Bounds":[],"CorrelationFunctions":[],
 "Design":["-DNDEBUG"],"ObjectiveFunctions":["-DNDEBUG"],
 "Optimizers":["-DNDEBUG","-fopenmp","-DOPENMP_SUPPORT"],"InternalOptimizers":["-DNDEBUG","-fopenmp","-DOPENMP_SUPPORT"],
 "SurrogateModels":["-DNDEBUG","-fopenmp","-DOPENMP_SUPPORT"],"Driver":["-DNDEBUG"],"API":[] }
SKIP={"gradient_optimizer.cpp"}

def log(*a): print(*a,file=sys.stderr,flush=True)

def repo_sources(dirs=None):
    out=[]
    for d in (dirs or DIRS):
        for f in sorted(glob.glob(f"{REPO}/src/{d}/*.cpp")):
            if os.path.basename(f) not in SKIP: out.append((f,DIRS[d]))
    return out

def header_hash():
    h=hashlib.sha256()
    for root in (f"{REPO}/src",f"{REPO}/externalFunctions"):
        for dp,dn,fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp",".h",".hh",".inl",".tpp")):
                    p=os.path.join(dp,f); h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()

def compile_one(src,flags,key_extra):
    data=open(src,"rb").read()
    k=hashlib.sha256((" ".join(flags)+key_extra+src).encode()+data).hexdigest()
    obj=f"{CACHE}/{k}.o"
    if os.path.exists(obj): return obj,None
    tmp=f"{obj}.{os.getpid()}.tmp"
    r=subprocess.run(["g++",*flags,"-c",src,"-o",tmp],capture_output=True,text=True)
    if r.returncode!=0: return None,f"{src}: {r.stderr[-3000:]}"
    os.replace(tmp,obj); return obj,None

def build(part,outdir):
    """compile repo + harness for a part; returns path of the executable"""
    os.makedirs(CACHE,exist_ok=True)
    hh=header_hash()
    vh=hashlib.sha256()
    for f in sorted(glob.glob(f"{VERIF}/harness/*.h*")): vh.update(open(f,"rb").read())
    vh=vh.hexdigest()
    base=["-std=gnu++17","-O2","-g1","-fPIC","-w","-pthread"]+part.get("cxxflags",[])
    rflags=part.get("repo_cxxflags",[])
    prel=[]
    if part.get("prelude"): prel=["-include",f"{VERIF}/harness/{part['prelude']}"]
    jobs=[]
    for src,defs in repo_sources(part.get("dirs")):
        d=[x for x in defs if not (x in part.get("drop",[]))]
        jobs.append((src,base+rflags+d+prel,hh+(vh if prel else "")))
    if part.get("main"): jobs.append((f"{REPO}/src/Rodeo.cpp",base+rflags+["-Dmain=rodeo_main"]+prel,hh+(vh if prel else "")))  # the program's own main, called by the harness
    if part.get("external",True):
        for f in sorted(glob.glob(f"{REPO}/externalFunctions/constraintFunction*.cpp")): jobs.append((f,base,hh))
    for f in part["harness"]:
        jobs.append((f"{VERIF}/harness/{f}",base+[f"-I{REPO}/src",f"-I{REPO}",f"-I{VERIF}/harness"]+part.get("harness_flags",[])+(prel if part.get("prelude_harness") else []),hh+vh))
    for f in part.get("plain",[]): jobs.append((f"{VERIF}/harness/{f}",base+[f"-I{VERIF}/harness"],vh))  # run-time support, never instrumented
    objs=[];errs=[]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for o,e in ex.map(lambda j: compile_one(*j),jobs):
            objs.append(o); 
            if e: errs.append(e)
    if errs:
        log("BUILD FAILED"); [log(e) for e in errs]; sys.exit(2)
    exe=f"{outdir}/{part['name']}"
    nh=len(part["harness"])+len(part.get("plain",[])); lib=f"{outdir}/{part['name']}.a"
    if subprocess.run(["ar","rcsD",lib]+objs[:-nh]).returncode: log("AR FAILED"); sys.exit(2)
    link=["g++","-pthread","-o",exe,*objs[-nh:],lib]+part.get("ldflags",[])+([] if part.get("no_gomp") else ["-fopenmp"])+[x for x in part.get("cxxflags",[]) if x.startswith("-fsanitize")]+["-lopenblas","-ldl","-lm"]
    r=subprocess.run(link,capture_output=True,text=True)
    if r.returncode!=0: log("LINK FAILED",r.stderr[-4000:]); sys.exit(2)
    return exe

def build_rodeo(outdir,cxxflags=()):
    """the rodeo executable itself, from the current tree (for checks that drive the program)"""
    part={"name":"rodeo","harness":[],"cxxflags":list(cxxflags)}
    os.makedirs(CACHE,exist_ok=True)
    hh=header_hash(); base=["-std=gnu++17","-O2","-g1","-fPIC","-w","-pthread",*cxxflags]
    jobs=[(s,base+d,hh) for s,d in repo_sources()]+[(f,base,hh) for f in sorted(glob.glob(f"{REPO}/externalFunctions/constraintFunction*.cpp"))]+[(f"{REPO}/src/Rodeo.cpp",base,hh)]
    objs=[];errs=[]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for o,e in ex.map(lambda j: compile_one(*j),jobs):
            objs.append(o)
            if e: errs.append(e)
    if errs: log("BUILD FAILED"); [log(e) for e in errs]; sys.exit(2)
    exe=f"{outdir}/rodeo"
    r=subprocess.run(["g++","-pthread","-fopenmp","-o",exe,*objs,"-lopenblas","-lm"],capture_output=True,text=True)
    if r.returncode!=0: log("LINK FAILED",r.stderr[-4000:]); sys.exit(2)
    return exe

ENV=dict(os.environ,OPENBLAS_NUM_THREADS="1",OMP_DYNAMIC="false",ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1",LC_ALL="C")

def known_findings(prop):
    p=f"{VERIF}/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("known",[]) if k["property"]==prop]

def run_part(part,exe,tier,scratch,deadline,seed,keys):
    out=f"{scratch}/{part['name']}.json"; sd=f"{scratch}/{part['name']}.d"; os.makedirs(sd)
    cmd=[exe,"--tier",tier,"--out",out,"--scratch",sd,"--workers",str(part.get("workers",NPROC)),"--deadline",str(deadline),"--seed",str(seed)]
    for k in keys: cmd+=["--known",k]
    env=dict(ENV,**{k:v.replace("@SCRATCH@",scratch) for k,v in part.get("env",{}).items()})
    if os.environ.get("MC_VERBOSE"): cmd.append("--verbose")
    try: r=subprocess.run(cmd,env=env,stdin=subprocess.DEVNULL,timeout=deadline+240)
    except subprocess.TimeoutExpired: log("harness exceeded its time"); sys.exit(2)
    if not os.path.exists(out): log("harness gave no result, exit",r.returncode); sys.exit(2)
    res=json.load(open(out))
    shutil.rmtree(sd,ignore_errors=True)
    return res

def replay_once(part,exe,tier,scratch,v,timeout=400):
    sd=tempfile.mkdtemp(dir=scratch)
    cmd=[exe,"--tier",tier,"--scratch",sd,"--replay-case",str(v["case"]),"--replay-path",",".join(map(str,v["path"]))]
    env=dict(ENV,**{k:x.replace("@SCRATCH@",scratch) for k,x in part.get("env",{}).items()})
    try: r=subprocess.run(cmd,env=env,stdin=subprocess.DEVNULL,capture_output=True,text=True,timeout=timeout,errors="replace")
    except subprocess.TimeoutExpired: return True,"hang"
    shutil.rmtree(sd,ignore_errors=True)
    return "REPRODUCED key=" in r.stdout and not r.stdout.startswith("NOT"), r.stdout

def replay_sequence(part,exe,tier,scratch,v,timeout):
    """a violation which does not appear in a fresh process: explore again, in one process and in the same order, the cases
    the worker had explored before it (the code under test carries something over from one execution to the next)"""
    sd=tempfile.mkdtemp(dir=scratch); out=f"{sd}/out.json"; open(f"{sd}/order","w").write("\n".join(map(str,v["order"])))
    env=dict(ENV,**{k:x.replace("@SCRATCH@",scratch) for k,x in part.get("env",{}).items()})
    try: subprocess.run([exe,"--tier",tier,"--scratch",sd,"--out",out,"--sequence",f"{sd}/order","--deadline",str(max(10,timeout-40))],env=env,stdin=subprocess.DEVNULL,timeout=timeout)
    except subprocess.TimeoutExpired: return False
    r=os.path.exists(out) and any(w["key"]==v["key"] and w["case"]==v["case"] and w["path"]==v["path"] for w in json.load(open(out))["violations"])
    shutil.rmtree(sd,ignore_errors=True)
    return r

def main():
    if len(sys.argv)>=3 and sys.argv[1]=="--replay":
        rp=json.load(open(sys.argv[2])); prop=rp["property"]; tier=rp["tier"]
        part=[p for p in CHECKS[prop]["parts"] if p["name"]==rp["part"]][0]
        scratch=tempfile.mkdtemp(prefix="rodeo_mc_",dir="/tmp")
        try:
            exe=build(part,scratch)
            if part.get("rodeo"): build_rodeo(scratch)
            if rp.get("order"): ok=replay_sequence(part,exe,tier,scratch,rp,1200); outp="reproduced by exploring again the cases before it" if ok else "not reproduced"
            else: ok,outp=replay_once(part,exe,tier,scratch,rp)
            print(outp); sys.exit(1 if ok else 0)
        finally: shutil.rmtree(scratch,ignore_errors=True)
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    if tier not in ("quick","thorough"): tier="quick"
    seed=int(os.environ.get("VERIF_SEED","1")); t0=time.time()
    chk=CHECKS[prop]
    scratch=tempfile.mkdtemp(prefix="rodeo_mc_",dir="/tmp")
    os.makedirs(f"{VERIF}/evidence",exist_ok=True); os.makedirs(f"{VERIF}/replays",exist_ok=True)
    rc=0; nviol=0
    cov={"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[],"exhaustive":True,"parts":[]}
    try:
        parts=[p for p in chk["parts"] if tier=="thorough" or not p.get("thorough_only")]
        if os.environ.get("MC_PART"): parts=[p for p in parts if p["name"]==os.environ["MC_PART"]]
        kf=known_findings(prop); keys=[k["key"] for k in kf]
        total=(780 if tier=="quick" else 3*3600)
        for i,part in enumerate(parts):
            exe=build(part,scratch)
            if part.get("rodeo"): build_rodeo(scratch)
            left=total-(time.time()-t0)
            deadline=max(20,min(part.get("deadline",{}).get(tier,300 if tier=="quick" else 3000),left/(len(parts)-i)))
            res=run_part(part,exe,tier,scratch,deadline,seed,keys)
            shown=[]
            for v in res["violations"]:
                if len(shown)>=3: break
                if any(s==v["key"] for s in shown): continue
                rep=False
                for _ in range(3):
                    rep,outp=replay_once(part,exe,tier,scratch,v)
                    if rep: break
                if not rep and v.get("order") and time.time()-t0<700:
                    rep=replay_sequence(part,exe,tier,scratch,v,min(300,880-(time.time()-t0)) if tier=="quick" else 1200)
                    if not rep: v=dict(v,order=len(v["order"]))
                elif rep: v.pop("order",None)
                if not rep:
                    cov.setdefault("unreproduced",[]).append({"part":part["name"],**{k:v[k] for k in("key","msg","case","path")}})
                    log("not reproduced, not reported:",v["key"],v["msg"]); continue
                shown.append(v["key"]); nviol+=1; rc=1
                h=hashlib.sha256(json.dumps(v).encode()).hexdigest()[:10]
                rpath=f"{VERIF}/replays/{prop}-{part['name']}-{h}.json"
                json.dump({"property":prop,"part":part["name"],"tier":tier,**v,"how":f"python3 {VERIF}/run_check.py --replay <this file>"},open(rpath,"w"),indent=1)
                print(f"  {part['name']}: [{v['key']}] {v['msg'][:600]}")
                print(f"VIOLATION property={prop} replay={rpath}",flush=True)
            cov["states"]+=res["states"]; cov["transitions"]+=res["transitions"]; cov["traces_validated_against_impl"]+=res["executions"]
            cov["samples"]+= [f"{part['name']}: {s}" for s in res["samples"]]
            cov["exhaustive"]=cov["exhaustive"] and bool(res["exhaustive"])
            cov["parts"].append({"name":part["name"],"what":part.get("what",""),**{k:res[k] for k in("cases","cases_done","executions","transitions","states","pruned","exhaustive","wall")},"known_findings_hit":res["known"]})
            if os.environ.get("MC_QUIET") is None: log(f"[{prop}/{part['name']}] cases {res['cases_done']}/{res['cases']} executions {res['executions']} states {res['states']} transitions {res['transitions']} exhaustive {res['exhaustive']} wall {res['wall']}")
        for k in kf:
            hit=sum(p["known_findings_hit"].get(k["key"],0) for p in cov["parts"])
            print(f"KNOWN-FINDING: property={prop} {k['what']} (seen in {hit} executions of this run)")
        ev={"property":prop,"tier":tier,"seed":seed,"level":chk["level"],"coverage":cov,"assumptions":chk.get("assumptions",[]),"wall_s":round(time.time()-t0,2),"violations":nviol}
        tmp=f"{VERIF}/evidence/{prop}.json.tmp"; json.dump(ev,open(tmp,"w"),indent=1); os.replace(tmp,f"{VERIF}/evidence/{prop}.json")
    finally:
        shutil.rmtree(scratch,ignore_errors=True)
    sys.exit(rc)
if __name__=="__main__": main()

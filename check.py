#!/usr/bin/env python3-vt
"""check.py <property id>: extract /repo's current sources, verify every function under contract that the property
depends on, write evidence/<id>.json.  Exit 0: every obligation discharged.  Exit 1: VIOLATION line."""
import sys, os, time, json, argparse
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from collections import Counter
def main():
    ap=argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--thorough",action="store_true"); ap.add_argument("--only"); ap.add_argument("-v",action="store_true"); ap.add_argument("--noreplay",action="store_true")
    a=ap.parse_args(); pid=a.prop
    tier="thorough" if a.thorough or os.environ.get("VERIF_TIER")=="thorough" else "quick"
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    t0=time.time(); limit=3600*3 if tier=="thorough" else 620
    from vc import build,verify,registry,replay,known
    groups=registry.groups(pid,tier)
    res=[]
    for g in groups:
        P=build.extract(**g.get("extract",{}))
        items=g["items"](P)
        if a.only: items=[(m,t) for m,t in items if t.name in a.only.split(",")]
        # long functions first
        items.sort(key=lambda x:-getattr(x[1],"cost",1))
        rr=verify.run_all(P,items,{pid},qtimeout=60000 if tier=="thorough" else 30000,procs=8,deadline=max(60,limit-(time.time()-t0)),scale=4 if tier=="thorough" else 1)
        for r in rr: r["config"]=g.get("name","release")
        res+=rr
    trusted=set(); assumptions=set(); contracts=set(); inlined=set(); loops=set(); externs=set()
    nob=0; ndis=0; bad=[]
    for r in res:
        trusted|=set(r["trusted"]); assumptions|=set(r["assumptions"]); contracts|=set(r["contracts"]); inlined|=set(r["inlined"]); loops|=set(r["loops"]); externs|=set(r["externs"])
        nob+=len(r["obl"]); ndis+=sum(1 for o in r["obl"] if o[2]=="discharged")
        if a.v: print(f"{r['name']:34} {dict(Counter(o[2] for o in r['obl']))} paths={r['paths']} q={r['queries']} {r['wall']:.1f}s {r['error'] or ''}")
        for f in r["failures"]:
            f["config"]=r["config"]; bad.append(f)
            if a.v: print("   FAIL",f["obligation"],"|",f["desc"],"|",f["verdict"],f["path"][-8:],f["model"])
        if r["error"]: bad.append(dict(function=r["name"],obligation="verification of the function completes",desc=r["error"],verdict="undecided",path=[],model=None,config=r["config"]))
    if not a.only and nob==0 and not bad: bad.append(dict(function="-",obligation="at least one obligation is generated",desc="no obligation was generated",verdict="undecided",path=[],model=None,config="-"))
    new,kn=known.split(pid,bad)
    for line in kn: print(f"KNOWN-FINDING: property={pid} {line}")
    ev=dict(property=pid,tier=tier,seed=seed,level="proof",wall_s=round(time.time()-t0,2),violations=len(new),
        coverage=dict(obligations=nob,discharged=ndis,checker_cmd=f"python3-vt /verif/check.py {pid}"+(" --thorough" if tier=="thorough" else ""),
            trusted_base=["clang 18 front end, opt passes sroa/instsimplify/loop-simplify (C++ to LLVM IR)","z3 (QF_UFBV), python bindings","/verif/vc engine (symbolic execution, loop invariant check)"]+sorted(trusted),
            solver="z3 "+__import__("z3").get_version_string(),solver_time_s=round(sum(r["tsolve"] for r in res),2),queries=sum(r["queries"] for r in res),
            functions_under_contract=[dict(function=r["name"],obligations=len(r["obl"]),discharged=sum(1 for o in r["obl"] if o[2]=="discharged"),paths=r["paths"],wall_s=round(r["wall"],2),config=r["config"],error=r["error"]) for r in res],
            contracts_used_at_calls=sorted(contracts),functions_inlined=sorted(inlined),loops_with_inferred_invariants=sorted(loops),external_functions_assumed=sorted(externs),
            bounded_standins=registry.standins(pid)),
        assumptions=sorted(assumptions)+registry.assumptions(pid))
    ok=not new
    st=registry.run_standins(pid,tier)
    if st: 
        ev["coverage"]["bounded_results"]=st
        for s in st:
            if not s["ok"]: ok=False; new.append(dict(function=s["name"],obligation="bounded check",desc=s["detail"],verdict="failed",path=[],model=None,config="bounded"))
    ev["violations"]=len(new); ev["wall_s"]=round(time.time()-t0,2)
    os.makedirs(f"{HERE}/evidence",exist_ok=True)
    def save():
        with open(f"{HERE}/evidence/{pid}.json","w") as f: json.dump(ev,f,indent=1,default=str)
    save()
    if ok:
        print(f"{pid}: {ndis}/{nob} obligations discharged over {len(res)} functions in {time.time()-t0:.1f}s"); return 0
    rp=f"{HERE}/evidence/replay-{pid}.txt"
    with open(rp,"w") as f:
        f.write(f"property {pid}: obligations that no longer verify on /repo's current source\n\n")
        for b in new[:40]:
            f.write(f"function {b['function']} ({b['config']})\n  obligation: {b['obligation']}: {b['desc']}\n  verifier: {b['verdict']} (z3)\n  path: {b['path']}\n  counterexample: {json.dumps(b['model'],default=str)}\n\n")
    found=None
    if not a.noreplay:
        found=replay.search(pid,new,seed,max(20,min(200,870-(time.time()-t0))) if tier=="quick" else 900)
    with open(rp,"a") as f:
        f.write("replay on the real code:\n"+(found or "no failing input found\n"))
    ev["wall_s"]=round(time.time()-t0,2); ev["coverage"]["replayed_counterexample"]=bool(found); save()
    for b in new[:5]: print(f"  failed: {b['function']}: {b['obligation']}: {b['desc']} [{b['verdict']}]")
    print(f"VIOLATION property={pid} replay={rp}"+("" if found else " no-failing-input-found"))
    return 1
if __name__=="__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); sys.exit(2)

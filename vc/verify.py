"""Runs verification targets (in parallel processes) and collects obligations."""
import time, traceback, multiprocessing as mp, z3
from .engine import *
from .build import base_name

def run_target(P,mkspec,tg,want,qtimeout=20000,stop=False,shard=None):
    """-> dict with the obligations of one function"""
    t0=time.time(); spec=mkspec(); ex=Exec(P,spec,budget=tg.budget,qtimeout=qtimeout); ex.want=want; ex.fnname=tg.name; ex.stop_on_fail=stop; ex.shard=shard
    out=dict(name=tg.name,fn=tg.fn,error=None)
    exits=[0,0]
    try:
        f=P.find(tg.fn,tg.module,tg.nparams)
        if f is None and getattr(tg,"optional",False): out.update(times={},obl=[],failures=[],paths=0,queries=0,tsolve=0,wall=0,assumptions=[],inlined=[],contracts=[],externs=[],loops=[],trusted=[]); return out
        if f is None: raise Unsupported(f"function {tg.fn} not found in /repo's sources")
        st=State(); ex.props=tg.props
        args,post=tg.setup(ex,st,spec)
        if spec_sat(ex)=="unsat": raise Unsupported("vacuous: the precondition is contradictory")
        def onexit(st2,ret):
            exits[0]+=1
            if ex.probe: return
            if exits[1]<1:
                if ex.check()!=z3.unsat: exits[1]+=1
                else: return
            if post: post(ex,st2,ret)
        st.exit=onexit
        ex.start(f,args,st)
        ex.run(st)
        if exits[0] and not exits[1]: raise Unsupported("vacuous: no exit of the function is reachable under the assumed contracts")
        if not exits[0] and not getattr(tg,"noexit",False): raise Unsupported("no path reaches the end of the function")
    except StopRun: pass
    except Unsupported as e: out["error"]="unsupported: "+str(e)
    except Budget: out["error"]="time budget of this function exhausted"
    except RecursionError: out["error"]="recursion depth"
    except Exception as e: out["error"]="internal: "+traceback.format_exc()[-1500:]
    r=ex.res
    out.update(times=r.times,obl=r.obl,failures=r.failures,paths=r.paths,queries=r.queries,tsolve=r.tsolve,wall=time.time()-t0,assumptions=sorted(r.assumptions),
        inlined=sorted(r.inlined),contracts=sorted(r.contracts),externs=sorted(r.externs),loops=sorted(set(r.loops)),trusted=sorted(spec.trusted))
    return out
def spec_sat(ex):
    r=ex.check()
    return str(r)
_G={}
def _work(i):
    P,items,want,qt=_G["a"]
    mk,tg,sh=items[i]
    return i,run_target(P,mk,tg,want,qt,shard=sh)
def run_all(P,items,want,qtimeout=20000,procs=8,deadline=800,scale=1):
    """items: [(mkspec,target)]"""
    jobs=[]; own={}
    for j,(mk,tg) in enumerate(items):
        tg.budget=min(tg.budget*scale,deadline); n=getattr(tg,"shards",1)
        for i in range(n): own[len(jobs)]=j; jobs.append((mk,tg,(i,n) if n>1 else None))
    _G["a"]=(P,jobs,want,qtimeout)
    ctx=mp.get_context("fork"); part=[None]*len(jobs); t0=time.time()
    pool=ctx.Pool(min(procs,max(1,len(jobs))),maxtasksperchild=1)
    try:
        it=pool.imap_unordered(_work,range(len(jobs)))
        for _ in jobs:
            try: i,r=it.next(timeout=max(1,deadline-(time.time()-t0)))
            except mp.TimeoutError: break
            part[i]=r
    finally: pool.terminate(); pool.join()
    res=[None]*len(items)
    for i,(mk,tg,sh) in enumerate(jobs):
        r=part[i] or dict(name=tg.name,fn=tg.fn,error="not finished within the time limit",obl=[],failures=[],paths=0,queries=0,tsolve=0,wall=deadline,assumptions=[],inlined=[],contracts=[],externs=[],loops=[],trusted=[],times={})
        j=own[i]
        if res[j] is None: res[j]=r; continue
        q=res[j]
        q["error"]=q["error"] or r["error"]; q["obl"]=q["obl"]+r["obl"]; q["failures"]=q["failures"]+r["failures"]
        q["paths"]=max(q["paths"],r["paths"]); q["queries"]+=r["queries"]; q["tsolve"]+=r["tsolve"]; q["wall"]=max(q["wall"],r["wall"])
        for k in("assumptions","inlined","contracts","externs","loops","trusted"): q[k]=sorted(set(q[k])|set(r[k]))
    return res

"""Deductive verifier for the LLVM lowering of the real code: forward symbolic execution of one function
against contracts, unbounded (loops cut by inferred-and-checked invariants, calls replaced by contracts or
inlined), obligations discharged by z3 (QF_UFBV).  Quantified invariants are instantiated for every heap term
the execution mentions (assumptions) and Skolemised (goals), so each query is quantifier free."""
import time, z3, sys, zlib
from z3 import BitVecVal, BitVec, BitVecSort, BoolVal, And, Or, Not, If, Implies, ULT, ULE, UGE, UGT, Extract, ZeroExt, SignExt, Concat, simplify, is_true, is_false
from .build import base_name
sys.setrecursionlimit(20000)
Obj=z3.DeclareSort("Obj"); NULL=z3.Const("null",Obj)
B8,B16,B32,B64=[BitVecSort(w) for w in(8,16,32,64)]
kindof=z3.Function("kindof",Obj,B8)
rid=z3.Function("rid",Obj,B16)
interior=z3.Function("interior",Obj,B64,Obj)
addrof=z3.Function("addrof",Obj,B64)
alen=z3.Function("alen",Obj,B64)          # size of the allocation an object pointer denotes
F64=z3.DeclareSort("F64")
RB=4000
PROF=None
def bv(v,w): return BitVecVal(v,w)
def sort_of(ty):
    if ty.k=="ptr": return Obj
    if ty.k=="int": return BitVecSort(max(ty.w,8) if ty.w!=1 else 8)
    if ty.k=="fp": return F64
    raise Unsupported("sort of "+str(ty))
class Unsupported(Exception): pass
class Budget(Exception): pass

class Ptr:
    """object + constant offset + optional symbolic byte index inside the array field arr=(start,len)"""
    __slots__=("obj","off","idx","arr")
    def __init__(s,obj,off=0,idx=None,arr=None): s.obj=obj; s.off=off; s.idx=idx; s.arr=arr
    def __repr__(s): return f"Ptr({s.obj}+{s.off}{'+'+str(s.idx) if s.idx is not None else ''})"
    def total(s):
        t=bv(s.off,64)
        return t if s.idx is None else t+s.idx
    def add(s,k):
        """advance by a byte count (int or BV64)"""
        if s.idx is not None: return Ptr(s.obj,s.off,simplify(s.idx+k) if not isinstance(k,int) else simplify(s.idx+bv(k,64)),s.arr)
        if isinstance(k,int): return Ptr(s.obj,s.off+k,None,s.arr)
        return Ptr(s.obj,s.off,k,s.arr)

class Log:
    __slots__=("e","prev","n")
    def __init__(s,e,prev): s.e=e; s.prev=prev; s.n=(prev.n if prev else 0)+1

class Frame:
    __slots__=("fn","env","b","i","prev","ret","loops","depth")
    def copy(s):
        f=Frame.__new__(Frame); f.fn=s.fn; f.env=dict(s.env); f.b=s.b; f.i=s.i; f.prev=s.prev; f.ret=s.ret; f.loops=list(s.loops); f.depth=s.depth
        return f

class State:
    __slots__=("frames","mem","sc","pool","univ","univ2","trace","events","seen","checked","tag","notes","writes","epoch","exit")
    def __init__(s):
        s.frames=[]; s.mem={}; s.sc={}; s.pool={}; s.univ=[]; s.univ2=[]; s.trace=None; s.events=(); s.seen=set(); s.checked=set(); s.tag=None; s.notes={}; s.writes=None; s.epoch=0; s.exit=None
    def copy(s):
        t=State.__new__(State)
        t.frames=[f.copy() for f in s.frames]; t.mem=dict(s.mem); t.sc=dict(s.sc)
        t.pool={k:dict(v) for k,v in s.pool.items()}; t.univ=list(s.univ); t.univ2=list(s.univ2); t.trace=s.trace; t.events=s.events
        t.seen=set(s.seen); t.checked=set(s.checked); t.tag=s.tag; t.notes=dict(s.notes); t.writes=None if s.writes is None else set(s.writes); t.epoch=s.epoch; t.exit=s.exit
        return t
class Snap:
    """A frozen memory view (for evaluating contract clauses in an earlier state)."""
    __slots__=("mem","sc","events")
    def __init__(s,st): s.mem=dict(st.mem); s.sc=dict(st.sc); s.events=st.events

def tid(t): return t.get_id()

class Univ:
    """forall t:sort. fn(view,t)   (assumed in the given snapshot; instantiated on the pool)"""
    __slots__=("name","sort","fn","view","grp")
    def __init__(s,name,sort,fn,view,grp=None): s.name=name; s.sort=sort; s.fn=fn; s.view=view; s.grp=grp

class Result:
    def __init__(s): s.obl=[]; s.paths=0; s.queries=0; s.tsolve=0.0; s.failures=[]; s.assumptions=set(); s.inlined=set(); s.loops=[]; s.contracts=set(); s.externs=set(); s.times={}

class Exec:
    def __init__(s,prog,spec,budget=800,qtimeout=20000):
        s.P=prog; s.spec=spec; s.res=Result(); s.keep=[]; s.okind={}; s.ptrof={}; s.ufs={}; s.fresh_n=0; s.ridmax=RB; s.nobj={}
        s.solver=z3.SimpleSolver(); s.solver.set("timeout",qtimeout); s.qtimeout=qtimeout
        s.t0=time.time(); s.budget=budget; s.probe=0; s.kinds={}; s.loopW={}; s.loopC={}; s.prov={}; s.loopphi={}
        s.active=[set()]; s.ubf={}; s.divs={}; s.ifact={}; s.ridub={}; s.watch={}; s.gdef={}; s.fdef={}; s.atype={}; s.acount=0; s.wide={}; s.rfacts={}
        s.solver.add(rid(NULL)==0)
        s.ridof={tid(NULL):0}; s.keep.append(NULL); s.cur=None; s.okb={}
        s.cache={}; s.rec=[]; s.recd=0
        s.props=("?",); s.fnname="?"; s.stop_on_fail=False; s.alloc_max=True
    # ---------- terms
    def fresh(s,name,sort):
        s.fresh_n+=1; c=z3.Const(f"{name}!{s.fresh_n}",sort); s.keep.append(c); return c
    def uf(s,name,*sorts):
        k=(name,)+tuple(x.name() if x is not Obj else "Obj" for x in sorts)+tuple(x.size() if isinstance(x,z3.BitVecSortRef) else 0 for x in sorts)
        if k not in s.ufs: s.ufs[k]=z3.Function(name,*sorts)
        return s.ufs[k]
    def kindno(s,k):
        if k not in s.kinds: s.kinds[k]=len(s.kinds)+1
        return bv(s.kinds[k],8)
    def region(s,name,kind,size=None):
        if name in s.nobj:
            for f in s.rfacts[name]: s.pending_add(f)
            return s.nobj[name]
        o=z3.Const(name,Obj); s.keep.append(o); s.nobj[name]=o; n=len(s.nobj)
        s.ridof[tid(o)]=n; s.okind[tid(o)]=kind
        fs=[rid(o)==n,o!=NULL]
        if size is not None: fs.append(alen(o)==size)
        s.rfacts[name]=fs
        for f in fs: s.pending_add(f)
        return o
    def pending_add(s,f):
        """assert a globally valid fact at the current level unless it is already active on this path"""
        k=tid(f)
        if s.recd: s.rec.append(f)
        for a in s.active:
            if k in a: return
        s.keep.append(f); s.active[-1].add(k); s.solver.add(f)
    level=0
    def push(s): s.solver.push(); s.level+=1; s.active.append(set())
    def pop(s): s.solver.pop(); s.level-=1; s.active.pop()
    def check(s,*fs):
        if time.time()-s.t0>s.budget: raise Budget()
        t=time.time(); r=s.solver.check(*fs); d=time.time()-t; s.res.tsolve+=d; s.res.queries+=1
        if PROF is not None:
            import traceback
            fr=[f.name+":"+str(f.lineno) for f in traceback.extract_stack(limit=5)[:-1]]
            if d>3: s.slow(r,d,fs)
            k=">".join(fr); a=PROF.setdefault(k,[0,0,{}]); a[0]+=1; a[1]+=d; a[2][str(r)]=a[2].get(str(r),0)+1
        return r
    def slow(s,r,d,fs):
        s.nslow=getattr(s,"nslow",0)+1
        sv=z3.Solver(); sv.add(s.solver.assertions()); sv.add(*fs)
        open(f"/tmp/slow_{s.nslow}.smt2","w").write(sv.to_smt2())
        print("SLOW",s.nslow,r,"%.1f"%d,len(s.solver.assertions()),flush=True)
    # ---------- kinds and memory
    def kind_of(s,p):
        return s.okind.get(tid(p.obj))
    def set_kind(s,st,obj,kind):
        i=tid(obj)
        if i in s.okind: return s.okind[i]
        s.okind[i]=kind; s.keep.append(obj)
        return kind
    def ktype(s,kind,obj=None):
        if kind is None: return None
        if obj is not None and tid(obj) in s.atype: return s.atype[tid(obj)]
        if obj is not None and tid(obj) in s.gdef and s.gdef[tid(obj)] is not None: return s.gdef[tid(obj)].ty
        return s.P.structs.get(kind)
    def arrfield(s,kind,off,obj=None):
        """(start,len) of the integer/pointer array field of this kind's type that contains offset off"""
        t=s.ktype(kind,obj); base=0
        while t is not None:
            if t.k=="struct":
                nt=None
                for o,e in zip(t.offs,t.elts):
                    if base+o<=off<base+o+e.size: nt=(base+o,e)
                if nt is None: return None
                base,t=nt
            elif t.k=="array":
                if t.elt.k in("struct","array"):
                    return (base,t.size)
                return (base,t.size)
            else: return None
        return None
    def distinct(s,a,b):
        """cheap proof that two object terms differ"""
        if a.eq(b): return False
        ra=s.ridof.get(tid(a)); rb=s.ridof.get(tid(b))
        if ra is not None and rb is not None: return ra!=rb
        ka=s.okind.get(tid(a)); kb=s.okind.get(tid(b))
        return ka is not None and kb is not None and ka!=kb
    def aeq(s,a,b,typed=True):
        """equality of two object terms; typed: objects of different types are different allocations"""
        if a.eq(b): return True
        if typed and s.distinct(a,b): return False
        ra=s.ridof.get(tid(a)); rb=s.ridof.get(tid(b))
        if ra is not None and rb is not None and ra!=rb: return False
        c=simplify(a==b)
        if is_true(c): return True
        if is_false(c): return False
        # a fresh allocation differs from anything read from an older state
        for x,y in((a,b),(b,a)):
            r=s.ridof.get(tid(x))
            if r is not None and r>RB:
                m=s.ridub.get(tid(y))
                if m is not None and m<r: return False
        return c
    # memory logs are immutable, so the value of a location in a given log is computed once; facts asserted on the
    # way (upper bounds of region numbers) are recorded and asserted again on later uses
    def cached(s,key,alive,fn):
        c=s.cache.get(key)
        if c is not None:
            for f in c[1]: s.pending_add(f)
            return c[0]
        a=len(s.rec); s.recd+=1
        try: v=fn()
        finally: s.recd-=1
        s.cache[key]=(v,tuple({tid(f):f for f in s.rec[a:]}.values()),alive)
        if not s.recd: s.rec=[]
        return v
    def note_ptr(s,st,t,ub):
        i=tid(t)
        if i not in s.ridub: s.ridub[i]=ub; s.keep.append(t)
        f=s.ubf.get(i)
        if f is None: f=s.ubf[i]=ULE(rid(t),s.ridub[i])
        s.pending_add(f)
    def key_for(s,p,w,isptr):
        """memory key, index"""
        k=s.kind_of(p)
        if k is None: k=s.set_kind(None,p.obj,"raw")
        if k=="raw" or k.startswith("kharr"):
            return k,("a",0,w),simplify(p.total())
        arr=p.arr or s.arrfield(k,p.off,p.obj)
        if arr is not None:
            ix=bv(p.off-arr[0],64)
            if p.idx is not None: ix=simplify(p.idx+ix)
            return k,("a",arr[0],w),ix
        if p.idx is not None:
            return k,("a",p.off,w),simplify(p.idx)
        return k,("f",p.off,w),None
    def read(s,view,kind,key,obj,idx,sort):
        """value of a location in a view (State or Snap)"""
        log=view.mem.get(kind)
        if idx is not None: s.keep.append(idx)
        return s.cached((kind,id(log),key,tid(obj),None if idx is None else tid(idx),sort),(log,obj),lambda:s.read0(log,kind,key,obj,idx,sort))
    def read0(s,log,kind,key,obj,idx,sort):
        conds=[]; epoch=0; base=None; ubound=RB
        w=key[2]; off=key[1]
        val=None
        while log is not None:
            e=log.e; t=e[0]
            if t=="w":
                _,eo,ek,ei,ev=e
                if ek==key and (ev.sort()==sort):
                    c=s.aeq(obj,eo)
                    if c is not False and ei is not None:
                        ci=simplify(idx==ei)
                        c=ci if c is True else And(c,ci)
                        if is_false(simplify(c)): c=False
                        elif is_true(simplify(c)): c=True
                    if c is True: val=ev; break
                    if c is not False: conds.append((c,ev))
                elif s.overlap(ek,key,ev,idx):
                    c=s.aeq(obj,eo)
                    if c is not False:
                        v=s.partial(ek,ev,key,sort) if c is True or True else None
                        if v is None: v=s.fresh("mix",sort)
                        if c is True: val=v; break
                        conds.append((c,v))
            elif t=="r":   # range write: (r, obj, off, len, fn)
                _,eo,eoff,elen,fn=e
                if key[0]=="f" and not(off+w//8<=eoff or eoff+elen<=off) or (key[0]=="a" and eoff<=off<eoff+elen):
                    c=s.aeq(obj,eo)
                    if c is not False:
                        v=fn(key,idx,sort)
                        if v is None: v=s.fresh("rng",sort)
                        if c is True: val=v; break
                        conds.append((c,v))
            elif t=="b":   # symbolic byte-range in an array: (b, obj, key(start), lo, n, fn(idx)->val)
                _,eo,est,lo,n,fn=e
                if key[0]=="a" and est==key[1]:
                    c=s.aeq(obj,eo)
                    if c is not False:
                        inr=ULT(idx-lo,n)
                        v=fn(idx,sort)
                        cc=inr if c is True else And(c,inr)
                        cs=simplify(cc)
                        if is_true(cs): val=v; break
                        if not is_false(cs): conds.append((cc,v))
            elif t=="h":   # havoc: (h, epoch, filter(key,obj)->z3 cond or True/False that location is havocked, ub)
                _,ep,flt,ub=e
                c=flt(key,obj)
                if c is not False:
                    f=s.basefn(kind,key,sort,ep,idx is not None)
                    v=f(obj) if idx is None else f(obj,idx)
                    if sort is Obj: s.note_ptr(None,v,ub)
                    if c is True or is_true(c): val=v; break
                    conds.append((c,v))
            log=log.prev
        if val is None:
            f=s.basefn(kind,key,sort,0,idx is not None)
            val=f(obj) if idx is None else f(obj,idx)
            if sort is Obj: s.note_ptr(None,val,RB)
        for c,v in reversed(conds): val=If(c,v,val)
        s.keep.append(val)
        return val
    def basefn(s,kind,key,sort,ep,ind):
        n=f"{kind}.{key[0]}{key[1]}.{key[2]}{'p' if sort is Obj else ''}@{ep}"
        return s.uf(n,Obj,B64,sort) if ind else s.uf(n,Obj,sort)
    def overlap(s,ek,key,ev,idx):
        if ek[0]=="g" or key[0]=="g": return False
        if ek[0]=="f" and key[0]=="f":
            return not(ek[1]+ek[2]//8<=key[1] or key[1]+key[2]//8<=ek[1])
        if ek[0]=="a" and key[0]=="a" and ek[1]==key[1] and ek[2]!=key[2]: return True
        return False
    def partial(s,ek,ev,key,sort):
        """read a narrower int from a wider stored int"""
        if ek[0]=="f" and isinstance(sort,z3.BitVecSortRef) and isinstance(ev.sort(),z3.BitVecSortRef):
            lo=key[1]-ek[1]
            if lo>=0 and lo*8+key[2]<=ek[2]: return simplify(Extract(lo*8+key[2]-1,lo*8,ev))
        if ek[0]=="f" and ek[1]==key[1] and ek[2]==key[2] and sort is Obj and isinstance(ev.sort(),z3.BitVecSortRef) and z3.is_bv_value(ev) and ev.as_long()==0:
            return NULL
        if ek[0]=="f" and ek[1]==key[1] and ek[2]==key[2] and ev.sort()==Obj and ev.eq(NULL) and isinstance(sort,z3.BitVecSortRef): return bv(0,key[2])
        return None
    def write(s,st,kind,key,obj,idx,val):
        st.mem[kind]=Log(("w",obj,key,idx,val),st.mem.get(kind))
        if st.writes is not None: st.writes.add((kind,key))
    # ghost fields are memory keys ("g",name,0) of a kind; ghost maps on plain sorts use kind "ghost:<name>"
    def gget(s,view,name,args,sort):
        """ghost map name: args (list of z3 terms) -> sort"""
        log=view.mem.get("ghost:"+name)
        return s.cached(("g",name,id(log),tuple(tid(a) for a in args)),(log,list(args)),lambda:s.gget0(log,name,args,sort))
    def gget0(s,log,name,args,sort):
        conds=[]; val=None
        while log is not None:
            e=log.e
            if e[0]=="w":
                c=True
                for a,b in zip(args,e[1]):
                    q=s.aeq(a,b) if a.sort()==Obj else simplify(a==b)
                    if q is True or (not isinstance(q,bool) and is_true(q)): continue
                    if q is False or is_false(q): c=False; break
                    c=q if c is True else And(c,q)
                cs=BoolVal(c) if isinstance(c,bool) else c
                if is_true(cs): val=e[2]; break
                if not is_false(cs): conds.append((c,e[2]))
            elif e[0]=="d":     # may only turn false
                c=e[2](args)
                u=s.uf(f"ghost.{name}@{e[1]}",*[a.sort() for a in args],sort)(*args)
                if c is True: conds.append((None,u))
                else:
                    val=u; break
            else:
                c=e[2](args)
                if c is not False:
                    v=s.uf(f"ghost.{name}@{e[1]}",*[a.sort() for a in args],sort)(*args)
                    if sort is Obj: s.note_ptr(None,v,e[3])
                    if c is True: val=v; break
                    conds.append((c,v))
            log=log.prev
        if val is None:
            val=s.uf(f"ghost.{name}@0",*[a.sort() for a in args],sort)(*args)
            if sort is Obj: s.note_ptr(None,val,RB)
        for c,v in reversed(conds): val=And(v,val) if c is None else If(c,v,val)
        s.keep.append(val); return val
    def gset(s,st,name,args,val):
        st.mem["ghost:"+name]=Log(("w",args,val),st.mem.get("ghost:"+name))
        if st.writes is not None: st.writes.add(("ghost:"+name,None))
    def newepoch(s): s.fresh_n+=1; return s.fresh_n
    def havoc(s,st,kind,flt=None,ep=None,track=True):
        ep=ep or s.newepoch()
        if kind.startswith("ghost:"):
            st.mem[kind]=Log(("h",ep,flt or (lambda a:True),s.ridmax),st.mem.get(kind))
        else:
            st.mem[kind]=Log(("h",ep,flt or (lambda k,o:True),s.ridmax),st.mem.get(kind))
        if track and st.writes is not None: st.writes.add((kind,None))
    def scget(s,view,name,sort):
        if name not in view.sc: view.sc[name]=z3.Const("sc."+name,sort); s.keep.append(view.sc[name])
        return view.sc[name]
    def scset(s,st,name,val):
        st.sc[name]=val
        if st.writes is not None: st.writes.add(("sc:"+name,None))
    # ---------- struct access helpers for contracts
    def T(s,name): return s.P.structs[name]
    def fld(s,view,p,sname,i,sort=None):
        """field i (index) of struct sname at pointer/obj p in view"""
        if not isinstance(p,Ptr): p=s.frm(p)
        t=s.T(sname)
        if s.kind_of(p) is None: s.set_kind(None,p.obj,sname)
        ft=t.elts[i]; srt=sort or sort_of(ft); off=p.off+t.offs[i]
        w=srt.size() if isinstance(srt,z3.BitVecSortRef) else 64
        return s.read(view,s.kind_of(p),("f",off,w),p.obj,None,srt)
    def setfld(s,st,p,sname,i,val):
        if not isinstance(p,Ptr): p=s.frm(p)
        t=s.T(sname)
        if s.kind_of(p) is None: s.set_kind(None,p.obj,sname)
        w=val.sort().size() if isinstance(val.sort(),z3.BitVecSortRef) else 64
        s.write(st,s.kind_of(p),("f",p.off+t.offs[i],w),p.obj,None,val)
    def alive(s,view,obj,kind=None):
        if s.ridof.get(tid(obj)) is not None and s.ridof[tid(obj)]<=RB and not obj.eq(NULL): return BoolVal(True)
        if obj.eq(NULL): return BoolVal(False)
        return And(s.gget(view,"alive",[obj],z3.BoolSort()),obj!=NULL)
    def setalive(s,st,obj,val,kind=None):
        s.gset(st,"alive",[obj],BoolVal(val) if isinstance(val,bool) else val)
    def malloc(s,st,size,kind=None):
        s.ridmax+=1
        o=z3.Const(f"new!{s.ridmax}",Obj); s.keep.append(o); s.ridof[tid(o)]=s.ridmax; s.ridub[tid(o)]=s.ridmax
        s.pending_add(rid(o)==s.ridmax); s.pending_add(o!=NULL); s.pending_add(alen(o)==size)
        if kind: s.set_kind(st,o,kind)
        s.assume(st,Not(s.alive(st,o)))      # a new object: not alive now, nor in the pre-state
        pre=st.notes.get("pre")
        if pre is not None: s.assume(st,Not(s.alive(pre,o)))
        s.setalive(st,o,True)
        return o
    # ---------- values
    def toobj(s,v):
        if isinstance(v,Ptr):
            if v.idx is None and v.off==0: return v.obj
            t=interior(v.obj,simplify(v.total()))
            if tid(t) not in s.ptrof:
                s.keep.append(t); s.ptrof[tid(t)]=v
                s.ifact[tid(t)]=z3.And(t!=NULL,z3.Function("ioobj",Obj,Obj)(t)==v.obj,z3.Function("iooff",Obj,B64)(t)==v.total())
            s.pending_add(s.ifact[tid(t)])
            return t
        return v
    def frm(s,t):
        if isinstance(t,Ptr): return t
        p=s.ptrof.get(tid(t))
        return p if p is not None else Ptr(t)
    def tobv(s,v,w=None):
        if isinstance(v,z3.BoolRef): return If(v,bv(1,w or 8),bv(0,w or 8))
        return v
    def const(s,st,v,fr):
        k=v[0]
        if k=="int": return BoolVal(bool(v[2]&1)) if v[1]==1 else bv(v[2],v[1])
        if k=="null": return Ptr(NULL)
        if k=="global":
            return Ptr(s.globobj(fr.fn.module,v[1]))
        if k=="func":
            return Ptr(s.funcobj(fr.fn.module,v[1]))
        if k=="undef":
            t=v[1]
            if t.k=="ptr": return Ptr(s.fresh("undef",Obj))
            if t.k=="int" and t.w==1: return s.fresh("undef",z3.BoolSort())
            if t.k in("struct","array"): return {"undef":True}
            return s.fresh("undef",sort_of(t))
        if k=="zero":
            t=v[1]
            if t.k=="int": return bv(0,t.w)
        if k=="fp": return s.uf(f"fp:{v[2]!r}",F64)() 
        if k=="cexpr":
            ops=[s.const(st,o,fr) for o in v[3]]
            if v[1]=="getelementptr": return s.gep(ops[0],v[4],ops[1:])
            if v[1]=="ptrtoint": return s.ptoi(ops[0])
            if v[1]=="bitcast": return ops[0]
            if v[1]=="inttoptr": return Ptr(s.fresh("i2p",Obj))
        if k=="meta": return None
        raise Unsupported("const "+str(v)[:80])
    def globobj(s,mod,name):
        g=s.P.global_(mod,name)
        nm=("G:"+name) if (g is None or not g.internal) else f"G:{mod}:{name}"
        if nm not in s.nobj:
            o=s.region(nm,"g:"+nm[2:],bv(g.ty.size,64) if g is not None and g.ty.size else None)
            s.gdef[tid(o)]=g
        return s.region(nm,None)
    def funcobj(s,mod,name):
        f=s.P.resolve(mod,name)
        nm="F:"+(name if f is None or not f.internal else f"{mod}:{name}")
        if nm not in s.nobj:
            o=s.region(nm,"func"); s.fdef[tid(o)]=f or name
        return s.region(nm,"func")
    def fobj(s,base,mod=None):
        f=s.P.find(base,mod)
        return s.funcobj(f.module,f.name) if f is not None else s.region("F?:"+base,"func")
    def ptoi(s,p):
        return addrof(p.obj)+p.total() if not p.obj.eq(NULL) else p.total()
    def gep(s,p,ty,idx):
        p=s.frm(p); okk=True
        if ty.k=="struct" and s.kind_of(p) is None and not p.obj.eq(NULL) and p.off==0 and p.idx is None and len(idx)>1:
            s.set_kind(None,p.obj,ty.name)
        def scale(i,sz):
            if isinstance(i,z3.BoolRef): i=If(i,bv(1,64),bv(0,64))
            c=simplify(i)
            if z3.is_bv_value(c): return c.as_signed_long()*sz
            i64=SignExt(64-c.size(),c) if c.size()<64 else c
            return simplify(i64*bv(sz,64)) if sz!=1 else simplify(i64)
        d=scale(idx[0],ty.size)
        if isinstance(d,int) and d==0: q=p
        else:
            q=p.add(d)
            if p.arr is None and s.kind_of(p) not in (None,"raw"):
                a=s.arrfield(s.kind_of(p),p.off,p.obj)
                if a is not None: q=Ptr(q.obj,q.off,q.idx,a)
        t=ty
        for i in idx[1:]:
            if t.k=="struct":
                n=simplify(i).as_long(); q=Ptr(q.obj,q.off+t.offs[n],q.idx,q.arr); t=t.elts[n]
            elif t.k=="array":
                d=scale(i,t.elt.size)
                if q.arr is None or q.idx is None:
                    q=Ptr(q.obj,q.off,(bv(d,64) if isinstance(d,int) else d),(q.off,t.size))
                else: q=q.add(d)
                t=t.elt
            else: raise Unsupported("gep into "+str(t))
        return q
    def val(s,st,fr,o):
        k=o[0]
        if k=="inst": return fr.env[o[1]]
        if k=="arg": return fr.env[("a",o[1])]
        return s.const(st,o,fr)
    # ---------- assumptions, obligations
    def assume(s,st,f):
        if f is True or f is None: return
        if f is False: f=BoolVal(False)
        s.solver.add(f)
    def assume_univ(s,st,u):
        st.univ.append(u)
        for t in list(st.pool.get(u.sort,{}).values()): s._inst(st,u,t)
    scope=None      # clause groups instantiated while proving one clause (None: all)
    def inscope(s,g): return s.scope is None or g is None or g in s.scope
    def assume_univ2(s,st,name,sorts,fn,view,grp=None):
        u=Univ(name,sorts,fn,view,grp); st.univ2.append(u)
        for x in list(st.pool.get(sorts[0],{}).values()):
            for y in list(st.pool.get(sorts[1],{}).values()): s._inst2(st,u,x,y)
    def _inst2(s,st,u,x,y):
        k=(id(u),tid(x),tid(y))
        if k in st.seen or not s.inscope(u.grp): return
        st.seen.add(k); s.solver.add(u.fn(u.view,x,y))
    def _inst(s,st,u,t):
        if not s.inscope(u.grp): return
        k=(id(u),tuple(tid(x) for x in t) if isinstance(t,tuple) else tid(t))
        if k in st.seen: return
        st.seen.add(k)
        f=u.fn(u.view,t)
        if f is not None and f is not True: s.solver.add(f)
    def register(s,st,sort,t,depth=0):
        d=st.pool.setdefault(sort,{})
        k=tuple(tid(x) for x in t) if isinstance(t,tuple) else tid(t)
        if k in d: return
        if isinstance(t,tuple): s.keep.extend(t)
        else:
            s.keep.append(t)
            if t.eq(NULL): return
        d[k]=t
        for u in list(st.univ):
            if u.sort==sort: s._inst(st,u,t)
        for u in st.univ2:
            if u.sort[0]==sort:
                for y in list(st.pool.get(u.sort[1],{}).values()): s._inst2(st,u,t,y)
            if u.sort[1]==sort:
                for x in list(st.pool.get(u.sort[0],{}).values()): s._inst2(st,u,x,t)
        s.spec.neighbors(s,st,sort,t,depth)
    def oblige(s,st,cond,oid,desc,props=None,assume=True):
        """One proof obligation."""
        if cond is True: return True
        if isinstance(cond,bool): cond=BoolVal(cond)
        if s.probe:
            if assume: s.assume(st,cond)
            return True
        props=tuple(props if props is not None else s.props)
        if not s.relevant(props) or not s.mine(st,oid):
            if assume: s.assume(st,cond)
            return True
        t0=time.time(); r=s.check(Not(cond)); ok=r==z3.unsat
        if PROF is not None: print("  OB %-22s %6d as %6.2f s q, %.1f total"%(oid,len(s.solver.assertions()),time.time()-t0,time.time()-s.t0),{k if isinstance(k,str) else str(k):len(v) for k,v in st.pool.items()},r,flush=True)
        tm=s.res.times.setdefault(oid,[0,0.0,0.0]); d=time.time()-t0; tm[0]+=1; tm[1]+=d; tm[2]=max(tm[2],d)
        s.res.obl.append((oid,props,"discharged" if ok else ("failed" if r==z3.sat else "unknown")))
        if not ok:
            s.fail(st,oid,desc,props,r)
        if assume: s.assume(st,cond)
        return ok
    shard=None
    def mine(s,st,oid):
        """obligations of one function can be split over several processes, by obligation and path"""
        if s.shard is None: return True
        i,n=s.shard; h=zlib.crc32(oid.encode()); t=st.trace
        k=0
        while t and k<400: h=(h*31+t[0][1])&0xffffffff; t=t[1]; k+=1
        return (h>>3)%n==i
    want=None
    def relevant(s,props): return s.want is None or bool(set(props)&s.want)
    def fail(s,st,oid,desc,props,r):
        m=None
        if r==z3.sat:
            try: m=s.solver.model()
            except Exception: m=None
        tr=[]; t=st.trace
        while t: tr.append(t[0]); t=t[1]
        s.res.failures.append(dict(function=s.fnname,obligation=oid,desc=desc,props=props,verdict=str(r),path=[x for x in reversed(tr)][-60:],
            model=s.model_summary(st,m) if m is not None else None))
        if s.stop_on_fail: raise StopRun()
    def model_summary(s,st,m):
        out={}
        try:
            for d in m.decls():
                if d.arity()==0:
                    v=m[d]
                    n=d.name()
                    if n.startswith(("arg","sc.","sk.","ret")) or "!" in n and not n.startswith(("k!","mix","rng")): out[n]=str(v)[:60]
            for name,t in list(s.watch.items())[:60]:
                out[name]=str(m.eval(t,model_completion=True))[:60]
        except Exception as e: out["error"]=str(e)
        return out
    def live(s,st,p,what,w=0):
        """obligation: the object is allocated and the access is inside it"""
        k=s.kind_of(p)
        o=p.obj
        if s.ridof.get(tid(o)) is None or s.ridof[tid(o)]>RB or o.eq(NULL):
            lg=st.mem.get(k or "raw")
            key=("L",tid(o),s.alog(st,k or "raw"))
            if key not in st.checked:
                st.checked.add(key)
                s.oblige(st,s.alive(st,o,k or "raw"),f"live",f"{what}: object is allocated",s.safety)
        if p.idx is not None and p.arr is not None:
            a0,al=p.arr
            ii=simplify(p.idx+bv(p.off-a0,64))
            c=simplify(And(ULE(ii,bv(al-w//8,64))))
            if not is_true(c): s.oblige(st,c,"bounds",f"{what}: index inside array of {al} bytes",s.safety)
        elif (k=="raw" or k is None):
            c=simplify(And(ULE(p.total(),alen(o)-bv(max(1,w//8),64)),UGE(alen(o),bv(max(1,w//8),64))))
            if not is_true(c):
                key=("B",tid(c))
                if key not in st.checked:
                    st.checked.add(key); s.keep.append(c)
                    s.oblige(st,c,"bounds",f"{what}: access inside allocated buffer",s.safety)
    safety=("C09",)
    def alog(s,st,kind):
        """identity of the newest log entry that can change liveness"""
        return id(st.mem.get("ghost:alive"))
    # ---------- execution
    def start(s,fn,args,st):
        fr=Frame(); fr.fn=fn; fr.env={("a",i):a for i,a in enumerate(args)}; fr.b=0; fr.i=0; fr.prev=None; fr.ret=None; fr.loops=[]; fr.depth=len(st.frames)
        st.frames.append(fr); return fr
    def run(s,st):
        while True:
            if not st.frames: return
            fr=st.frames[-1]; blk=fr.fn.blocks[fr.b]
            inst=blk.insts[fr.i]; fr.i+=1
            r=s.step(st,fr,inst)
            if r is None: continue
            if isinstance(r,str): return
            # r: list of (cond, mutator)
            alts=[]
            for c,mu in r:
                if c is None or c is True: alts.append((None,mu)); continue
                c=simplify(c) if not isinstance(c,bool) else BoolVal(c)
                if is_false(c): continue
                if is_true(c): alts.append((None,mu)); continue
                alts.append((c,mu))
            feas=[]
            if len(alts)>1:
                for j,(c,mu) in enumerate(alts):
                    if c is None or s.check(c)!=z3.unsat: feas.append((c,mu))
            else: feas=alts
            if not feas: return
            if len(feas)==1:
                c,mu=feas[0]
                if c is not None: s.solver.add(c)
                if isinstance(mu(st),str): return
                continue
            for j,(c,mu) in enumerate(feas):
                s.push()
                try:
                    st2=st.copy()
                    if c is not None: s.solver.add(c)
                    if not isinstance(mu(st2),str): s.run(st2)
                finally: s.pop()
            return
    def goto(s,st,fr,dest):
        fn=fr.fn; src=fr.b
        heads=s.loopinfo(fn)
        if dest in heads:
            if s.spec.unroll(s,fr): return s.jump(st,fr,dest,src)
            if src in heads[dest]:     # back edge
                r=s.thread(st,fr,dest,src,heads[dest])
                if r!="none": return r
                while fr.loops:
                    ctx=fr.loops[-1]
                    if ctx.header==dest:
                        if isinstance(ctx,Peel):
                            fr.loops.pop(); return s.enter_loop(st,fr,dest,src,heads[dest])
                        ctx.back(st,fr,src); return "stop"
                    if fr.loops.pop().probing: return "exitprobe"
                raise Unsupported("back edge without context")
            if s.spec.peel(s,fr):
                fr.loops.append(Peel(dest)); return s.jump(st,fr,dest,src)
            return s.enter_loop(st,fr,dest,src,heads[dest])
        return s.jump(st,fr,dest,src)
    def thread(s,st,fr,dest,src,body):
        """a back edge whose loop condition already says 'leave': execute the condition and leave, without cutting"""
        cur,prev=dest,src; env=dict(fr.env)
        for _ in range(12):
            if cur not in body:
                fr.env=env; return s.jump(st,fr,cur,prev)
            b=fr.fn.blocks[cur]; f2=Frame(); f2.fn=fr.fn; f2.env=env
            new={}
            for I in b.insts:
                if I.op=="phi":
                    for pb,o in I.x:
                        if pb==prev: new[I.id]=s.val(st,f2,o)
            env.update(new)
            for I in b.insts:
                if I.op=="phi": continue
                if I.op=="icmp":
                    a,c=s.val(st,f2,I.ops[0]),s.val(st,f2,I.ops[1])
                    if isinstance(a,Ptr) or isinstance(c,Ptr) or isinstance(a,z3.BoolRef) or isinstance(c,z3.BoolRef): return "none"
                    p=I.x
                    if p not in("eq","ne"): return "none"
                    env[I.id]=simplify(a==c if p=="eq" else a!=c)
                elif I.op=="br":
                    if not I.ops: nxt=I.x[0]
                    else:
                        c=s.val(st,f2,I.ops[0])
                        c=simplify(c) if isinstance(c,z3.BoolRef) else None
                        if c is None: return "none"
                        if is_true(c): nxt=I.x[0]
                        elif is_false(c): nxt=I.x[1]
                        elif s.check(Not(c))==z3.unsat: nxt=I.x[0]
                        elif s.check(c)==z3.unsat: nxt=I.x[1]
                        else: return "none"
                    prev,cur=cur,nxt; break
                else: return "none"
            else: return "none"
        return "none"
    def jump(s,st,fr,dest,src,phis=None):
        b=fr.fn.blocks[dest]; vals=[]; n=0
        for I in b.insts:
            if I.op!="phi": break
            n+=1
            if phis is not None: vals.append((I.id,phis[I.id])); continue
            for pb,o in I.x:
                if pb==src: vals.append((I.id,s.val(st,fr,o))); break
        for i,v in vals: fr.env[i]=v
        fr.prev=src; fr.b=dest; fr.i=n
        # leaving loops
        heads=s.loopinfo(fr.fn)
        while fr.loops and dest not in heads[fr.loops[-1].header]:
            ctx=fr.loops.pop()
            if isinstance(ctx,Peel): continue
            if ctx.probing: return "exitprobe"
        return None
    def loopinfo(s,fn):
        if fn.loops is not None: return fn.loops
        # natural loops via dominators
        n=len(fn.blocks); dom=[set(range(n)) for _ in range(n)]; dom[0]={0}; ch=True
        while ch:
            ch=False
            for b in range(1,n):
                ps=fn.blocks[b].preds
                d=set.intersection(*[dom[p] for p in ps])|{b} if ps else {b}
                if d!=dom[b]: dom[b]=d; ch=True
        loops={}
        for b in range(n):
            for d in fn.blocks[b].succs:
                if d in dom[b]:
                    body={d,b}; w=[b]
                    while w:
                        x=w.pop()
                        if x==d: continue
                        for p in fn.blocks[x].preds:
                            if p not in body: body.add(p); w.append(p)
                    loops.setdefault(d,set()).update(body)
        fn.loops=loops
        return loops
    def enter_loop(s,st,fr,H,src,body):
        fn=fr.fn
        phis=[I for I in fn.blocks[H].insts if I.op=="phi"]
        init={}
        for I in phis:
            for pb,o in I.x:
                if pb==src: init[I.id]=s.val(st,fr,o)
        lk=(fn.module,fn.name,H,fr.depth==0 and 0 or tuple(f.fn.name for f in st.frames[:-1]))
        W=s.loopW.setdefault(lk,set()); shape=s.loopphi.setdefault(lk,{})
        s.res.loops.append(f"{base_name(fn.demangled)}:{fn.blocks[H].insts[0].line or fn.blocks[H].name}")
        entry=Snap(st)
        iters=0; dropped=set(s.loopC.get(lk,()))
        while True:
            iters+=1
            if iters>40: raise Unsupported("loop invariant inference does not stabilise")
            ctx=LoopCtx(s,fn,H,body,phis,init,entry,W,shape,lk,fr)
            # candidates that hold on entry
            s.push()
            try:
                st0=st.copy(); fr0=st0.frames[-1]
                cands=[c for c in ctx.candidates(st0,init,bv(0,64)) if c.name not in dropped]
                bad=[c.name for c in cands if not c.holds(s,st0,init,bv(0,64))]
            finally: s.pop()
            dropped|=set(bad)
            names=[c.name for c in cands if c.name not in dropped]
            # probe the body
            s.push(); s.probe+=1
            try:
                st1=st.copy(); fr1=st1.frames[-1]
                st1.writes=set()
                ph=ctx.havoc(st1,fr1,names)
                ctx.probing=True; ctx.newW=set(); ctx.bad=set(); ctx.reshape=False
                ctx.assumed=set(names)
                fr1.loops.append(ctx)
                if s.jump(st1,fr1,H,src,ph) is None:
                    s.run(st1)
            finally: s.probe-=1; s.pop()
            ch=False
            if ctx.reshape: ch=True
            if ctx.newW-W: W|=ctx.newW; ch=True
            if ctx.bad: dropped|=ctx.bad; ch=True
            if not ch: break
        s.loopC[lk]=set(dropped)
        # real pass
        ctx=LoopCtx(s,fn,H,body,phis,init,entry,W,shape,lk,fr)
        names=[n for n in names if n not in dropped]
        ow=st.writes
        if ow is not None:
            for k,key in W: ow.add((k,key))
        ph=ctx.havoc(st,fr,names)
        ctx.probing=False; ctx.names=names; ctx.assumed=set(names)
        fr.loops.append(ctx)
        if s.jump(st,fr,H,src,ph): return "stop"
        return None
    # ---------- instructions
    def step(s,st,fr,I):
        o=I.op
        if I.line and (st.trace is None or st.trace[0]!=(base_name(fr.fn.demangled),I.line)):
            st.trace=((base_name(fr.fn.demangled),I.line),st.trace)
        env=fr.env
        V=lambda j: s.val(st,fr,I.ops[j])
        if o in("add","sub","mul","and","or","xor","shl","lshr","ashr","udiv","sdiv","urem","srem"):
            a,b=V(0),V(1)
            if isinstance(a,z3.BoolRef) or isinstance(b,z3.BoolRef):
                env[I.id]={"and":lambda:And(a,b),"or":lambda:Or(a,b),"xor":lambda:z3.Xor(a,b),"add":lambda:z3.Xor(a,b)}[o](); return None
            if o in("udiv","sdiv","urem","srem"): s.oblige(st,b!=0,"divzero","division by zero",s.safety)
            if o in("udiv","sdiv","urem","srem") and z3.is_bv_value(b) and not z3.is_bv_value(a) and b.as_signed_long()>0:
                env[I.id]=s.divconst(st,o,a,b); return None
            if o=="add": r=a+b
            elif o=="sub": r=a-b
            elif o=="mul": r=a*b
            elif o=="and": r=a&b
            elif o=="or": r=a|b
            elif o=="xor": r=a^b
            elif o=="shl": r=a<<b
            elif o=="lshr": r=z3.LShR(a,b)
            elif o=="ashr": r=a>>b
            elif o=="udiv": r=z3.UDiv(a,b)
            elif o=="sdiv": r=a/b
            elif o=="urem": r=z3.URem(a,b)
            else: r=z3.SRem(a,b)
            env[I.id]=simplify(r); return None
        if o=="icmp":
            a,b=V(0),V(1)
            if isinstance(a,Ptr) or isinstance(b,Ptr):
                env[I.id]=s.pcmp(I.x,a,b); return None
            if isinstance(a,z3.BoolRef): a=s.tobv(a,1); 
            if isinstance(b,z3.BoolRef): b=s.tobv(b,1)
            p=I.x
            env[I.id]=simplify({"eq":lambda:a==b,"ne":lambda:a!=b,"ugt":lambda:UGT(a,b),"uge":lambda:UGE(a,b),"ult":lambda:ULT(a,b),"ule":lambda:ULE(a,b),
                "sgt":lambda:a>b,"sge":lambda:a>=b,"slt":lambda:a<b,"sle":lambda:a<=b}[p]()); return None
        if o=="load":
            p=V(0); env[I.id]=s.load(st,fr,I,p); return None
        if o=="store":
            s.store(st,fr,I,V(0),V(1)); return None
        if o=="getelementptr":
            env[I.id]=s.gep(V(0),I.x,[s.val(st,fr,x) for x in I.ops[1:]]); return None
        if o=="br":
            if not I.ops:
                return s.goto(st,fr,I.x[0])
            c=V(0)
            def g(d): return lambda st2:s.goto(st2,st2.frames[-1],d)
            return [(c,g(I.x[0])),(Not(c),g(I.x[1]))]
        if o=="call" or o=="invoke": return s.call(st,fr,I)
        if o=="ret":
            v=V(0) if I.ops else None
            return s.ret(st,fr,v)
        if o in("zext","sext","trunc"):
            a=V(0); w=I.ty.w
            if isinstance(a,z3.BoolRef):
                env[I.id]=If(a,bv(1 if o=="zext" else (1<<w)-1,w),bv(0,w)) if not (is_true(a) or is_false(a)) else bv((1 if o=="zext" else (1<<w)-1) if is_true(a) else 0,w)
            elif o=="trunc":
                r=Extract(w-1,0,a)
                env[I.id]=simplify(r==1) if w==1 else simplify(r)
            elif w==64 and tid(a) in s.wide: env[I.id]=s.wide[tid(a)]      # a named length: its extension is known
            else: env[I.id]=simplify(ZeroExt(w-a.size(),a) if o=="zext" else SignExt(w-a.size(),a))
            return None
        if o=="select":
            c,a,b=V(0),V(1),V(2)
            if is_true(c): env[I.id]=a
            elif is_false(c): env[I.id]=b
            elif isinstance(a,Ptr) or isinstance(b,Ptr):
                a,b=s.frm(a),s.frm(b)
                if a.obj.eq(b.obj) and a.off==b.off and a.arr==b.arr and (a.idx is None)==(b.idx is None):
                    env[I.id]=Ptr(a.obj,a.off,None if a.idx is None else If(c,a.idx,b.idx),a.arr)
                else: 
                    def sel(v):
                        def mu(st2): st2.frames[-1].env[I.id]=v
                        return mu
                    return [(c,sel(a)),(Not(c),sel(b))]
            else: env[I.id]=If(c,a,b)
            return None
        if o=="switch":
            v=V(0); alts=[]; others=[]
            def g(d): return lambda st2:s.goto(st2,st2.frames[-1],d)
            bydest={}
            for c,d in I.x[1:]:
                cc=v==s.val(st,fr,c); bydest.setdefault(d,[]).append(cc); others.append(cc)
            for d,cs in bydest.items(): alts.append((Or(*cs) if len(cs)>1 else cs[0],g(d)))
            alts.append((Not(Or(*others)) if others else None,g(I.x[0])))
            return alts
        if o=="alloca":
            n=f"A:{fr.fn.name}:{I.id}:{fr.depth}"
            s.acount+=1
            nm=f"{n}:{s.acount}"
            obj=s.region(nm,"A:"+nm,bv(I.x.size,64)); env[I.id]=Ptr(obj)
            s.atype[tid(obj)]=I.x
            return None
        if o=="ptrtoint": env[I.id]=s.ptoi(s.frm(V(0))); return None
        if o=="inttoptr": env[I.id]=Ptr(s.fresh("i2p",Obj)); return None
        if o in("bitcast","freeze"): env[I.id]=V(0); return None
        if o=="unreachable": return "stop"
        if o=="extractvalue":
            a=V(0)
            if isinstance(a,dict): env[I.id]=a.get(tuple(I.x),s.freshof(I.ty)); return None
            env[I.id]=s.freshof(I.ty); return None
        if o=="insertvalue":
            a=V(0); a=dict(a) if isinstance(a,dict) else {}
            a[tuple(I.x)]=V(1); env[I.id]=a; return None
        if o in("sitofp","uitofp","fadd","fsub","fmul","fdiv","fpext","fptrunc","fneg","fptosi","fptoui","fcmp"):
            r=s.spec.fp(s,st,I,[s.val(st,fr,x) for x in I.ops])
            env[I.id]=r; return None
        if o in("landingpad","resume"): return "stop"
        if o=="phi": raise Unsupported("phi position")
        raise Unsupported("instruction "+o)
    def divconst(s,st,o,a,b):
        """division by a positive constant, by its defining equation"""
        w=a.size(); c=b.as_long()
        if c&(c-1)==0 and o[0]=="u":
            k=c.bit_length()-1
            return simplify(z3.LShR(a,bv(k,w)) if o=="udiv" else a&bv(c-1,w))
        key=(tid(a),c,o[0]); s.keep.append(a)
        if key not in s.divs:
            q=s.fresh("quot",BitVecSort(w)); r=s.fresh("rem",BitVecSort(w))
            if o[0]=="u": f=And(a==q*b+r,ULT(r,b),ULE(q,bv(((1<<w)-1)//c,w)))
            else: 
                m=(1<<(w-1))
                f=And(a==q*b+r,q<=bv((m-1)//c,w),q>=bv(-(m//c),w),If(a>=0,And(r>=0,r<b),And(r<=0,r>-b)))
            s.divs[key]=(q,r,f)
        q,r,f=s.divs[key]; s.pending_add(f)
        return q if o.endswith("div") else r
    def freshof(s,ty,name="x"):
        if ty.k=="ptr": return Ptr(s.fresh(name,Obj))
        if ty.k=="int" and ty.w==1: return s.fresh(name,z3.BoolSort())
        if ty.k=="void": return None
        if ty.k in("struct","array"): return {}
        return s.fresh(name,sort_of(ty))
    def pcmp(s,pred,a,b):
        a,b=s.frm(a),s.frm(b)
        if a.obj.eq(b.obj):
            x,y=simplify(a.total()),simplify(b.total())
            r={"eq":x==y,"ne":x!=y,"ult":ULT(x,y),"ule":ULE(x,y),"ugt":UGT(x,y),"uge":UGE(x,y)}[pred]
            return simplify(r)
        if pred in("eq","ne"):
            c=s.aeq(s.toobj(a),s.toobj(b),False)
            if c is True or c is False: r=BoolVal(c)
            else: r=c
            return simplify(Not(r)) if pred=="ne" else r
        x,y=s.ptoi(a),s.ptoi(b)
        return {"ult":ULT(x,y),"ule":ULE(x,y),"ugt":UGT(x,y),"uge":UGE(x,y)}[pred]
    def constglobal(s,obj,off,w,isptr,idx):
        g=s.gdef.get(tid(obj))
        if g is None or not g.const or g.init is None: return None
        def at(c,off):
            k=c[0]
            if k=="str":
                b=c[2]
                if off+w//8<=len(b): return bv(int.from_bytes(b[off:off+w//8],"little"),w)
                return None
            if k=="int": return bv(c[2],c[1]) if off==0 and c[1]==w else None
            if k=="zero": return bv(0,w)
            if k=="agg":
                t=c[1]
                if t.k=="array": i=off//t.elt.size; return at(c[2][i],off-i*t.elt.size) if i<len(c[2]) else None
                for i in range(len(t.offs)-1,-1,-1):
                    if t.offs[i]<=off: return at(c[2][i],off-t.offs[i])
            return None
        if idx is not None: return None
        if isptr: return None
        return at(g.init,off)
    def load(s,st,fr,I,p):
        p=s.frm(p); t=I.ty; isptr=t.k=="ptr"; w=64 if isptr else (t.w if t.k in("int","fp") else t.size*8)
        if t.k not in("int","ptr","fp"): raise Unsupported("load of "+str(t))
        if t.k=="int" and w<8: w=8
        if not s.spec.skip_live(s,p): s.live(st,p,f"read at {base_name(fr.fn.demangled)}:{I.line}",w)
        ci=p.idx
        if ci is not None and z3.is_bv_value(ci): o2=p.off+ci.as_long(); ii=None
        else: o2=p.off; ii=ci
        c=s.constglobal(p.obj,o2,w,isptr,ii)
        if c is not None: return c
        kind,key,idx=s.key_for(p,w,isptr)
        r=s.spec.on_load(s,st,fr,I,p,kind,key,idx)
        if r is not None: return r
        v=s.read(st,kind,key,p.obj,idx,sort_of(t))
        s.spec.after_load(s,st,fr,I,p,kind,key,idx,v)
        if isptr: return s.frm(v)
        if t.k=="int" and t.w==1: return v==1
        return v
    def store(s,st,fr,I,v,p):
        p=s.frm(p); t=I.x; isptr=t.k=="ptr"
        if isinstance(v,dict):
            raise Unsupported("aggregate store")
        if isinstance(v,z3.BoolRef): v=s.tobv(v,8)
        vv=s.toobj(v) if isptr else v
        w=64 if isptr or t.k=="fp" else max(8,t.w)
        if not s.spec.skip_live(s,p): s.live(st,p,f"write at {base_name(fr.fn.demangled)}:{I.line}",w)
        g=s.gdef.get(tid(p.obj))
        if g is not None and g.const: s.oblige(st,BoolVal(False),"constwrite","write to constant data",s.safety)
        kind,key,idx=s.key_for(p,w,isptr)
        if s.spec.on_store(s,st,fr,I,p,kind,key,idx,vv): return
        s.write(st,kind,key,p.obj,idx,vv)
    def ret(s,st,fr,v):
        st.frames.pop()
        if fr.ret is not None:
            hook=fr.ret
            r=hook(st,v)
            if r is not None: return r
        if not st.frames:
            s.res.paths+=0 if s.probe else 1
            if st.exit: st.exit(st,v)
            return "stop"
        return None
    def call(s,st,fr,I):
        callee=I.x; normal=None
        if I.op=="invoke": callee,normal=I.x
        args=[s.val(st,fr,o) for o in I.ops if o[0]!="block"]
        def done(st2,v):
            f2=st2.frames[-1]
            if I.ty.k!="void": f2.env[I.id]=v
            if normal is not None: return s.goto(st2,f2,normal)
            return None
        if callee[0]=="func":
            name=callee[1]
            if name.startswith("llvm."): return s.intrinsic(st,fr,I,name,args,done)
            f=s.P.resolve(fr.fn.module,name)
            b=base_name(s.P.dem.get(name,name))
            return s.dispatch(st,fr,I,f,b,args,done)
        if callee[0]=="asm": return done(st,s.freshof(I.ty))
        fp=s.frm(s.val(st,fr,callee))
        fd=s.fdef.get(tid(fp.obj))
        if fd is not None and not isinstance(fd,str): return s.dispatch(st,fr,I,fd,base_name(fd.demangled),args,done)
        r=s.spec.indirect(s,st,fr,I,fp,args,done)
        if r!="none": return r
        raise Unsupported("indirect call")
    def dispatch(s,st,fr,I,f,b,args,done):
        h=s.spec.handler(s,st,f,b,args)
        if h is not None:
            s.res.contracts.add(b)
            return h(s,st,fr,I,args,done)
        if f is not None:
            if sum(1 for x in st.frames if x.fn is f)>0: raise Unsupported("recursion through "+b)
            s.res.inlined.add(b)
            nf=s.start(f,args,st); nf.ret=lambda st2,v: done(st2,v)
            return None
        s.res.externs.add(b)
        return done(st,s.freshof(I.ty,"ext_"+b)) if not s.spec.unknown_extern(s,st,fr,I,b,args) else "stop"
    def intrinsic(s,st,fr,I,name,args,done):
        if name.startswith(("llvm.dbg","llvm.lifetime","llvm.assume","llvm.va_","llvm.experimental","llvm.stack")): return done(st,s.freshof(I.ty) if I.ty.k!="void" else None)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.memcpy(st,fr,I,args[0],args[1],args[2]); return done(st,None)
        if name.startswith("llvm.memset"):
            s.memset(st,fr,I,args[0],args[1],args[2]); return done(st,None)
        if name.startswith(("llvm.umax","llvm.umin","llvm.smax","llvm.smin")):
            a,b=args; k=name[5:9]
            return done(st,If({"umax":UGT(a,b),"umin":ULT(a,b),"smax":a>b,"smin":a<b}[k],a,b))
        if name.startswith(("llvm.trap","llvm.ubsantrap")): return "stop"
        raise Unsupported("intrinsic "+name)
    def rangecheck(s,st,fr,I,p,n,what):
        p=s.frm(p)
        c0=simplify(n==0)
        if is_true(c0): return
        k=s.kind_of(p)
        if s.ridof.get(tid(p.obj)) is None or s.ridof[tid(p.obj)]>RB or p.obj.eq(NULL):
            s.oblige(st,Or(n==0,s.alive(st,p.obj,k or "raw")),"live",f"{what} at {base_name(fr.fn.demangled)}:{I.line}: buffer is allocated",s.safety)
        if p.idx is not None and p.arr is not None:
            a0,al=p.arr; ii=simplify(p.idx+bv(p.off-a0,64))
            c=And(ULE(ii,bv(al,64)),ULE(n,bv(al,64)-ii))
        elif k is not None and not k in("raw",) and not k.startswith(("A:","g:")):
            sz=s.P.structs[k].size if k in s.P.structs else None
            if sz is None: return
            c=And(ULE(p.total(),bv(sz,64)),ULE(n,bv(sz,64)-p.total()))
        else:
            t=p.total(); c=And(ULE(t,alen(p.obj)),ULE(n,alen(p.obj)-t))
        c=simplify(Or(n==0,c))
        if not is_true(c): s.oblige(st,c,"bounds",f"{what} at {base_name(fr.fn.demangled)}:{I.line}: range inside buffer",s.safety)
    def memset(s,st,fr,I,p,v,n):
        p=s.frm(p); n=ZeroExt(64-n.size(),n) if n.size()<64 else n
        s.rangecheck(st,fr,I,p,n,"memset")
        kind=s.kind_of(p) or s.set_kind(st,p.obj,"raw"); nn=simplify(n); v8=simplify(Extract(7,0,v) if v.size()>8 else v)
        def fill(sort):
            if sort is Obj: return NULL if z3.is_bv_value(v8) and v8.as_long()==0 else None
            if sort==z3.BoolSort(): return None
            if sort is F64: return None
            w=sort.size(); return simplify(Concat(*[v8]*(w//8))) if w>8 else v8
        if kind=="raw":
            st.mem[kind]=Log(("b",p.obj,0,p.total(),nn,lambda idx,sort:fill(sort) if fill(sort) is not None else s.fresh("ms",sort)),st.mem.get(kind))
        elif z3.is_bv_value(nn) and p.idx is None:
            st.mem[kind]=Log(("r",p.obj,p.off,nn.as_long(),lambda key,idx,sort:fill(sort) if key[0]!="g" else None),st.mem.get(kind))
        elif p.idx is not None and p.arr is not None and z3.is_bv_value(simplify(p.idx)) and z3.is_bv_value(nn):
            st.mem[kind]=Log(("r",p.obj,p.off+simplify(p.idx).as_long(),nn.as_long(),lambda key,idx,sort:fill(sort) if key[0]!="g" else None),st.mem.get(kind))
        elif p.idx is not None:
            st.mem[kind]=Log(("b",p.obj,p.arr[0] if p.arr else p.off,simplify(p.idx+bv(p.off-(p.arr[0] if p.arr else p.off),64)),nn,lambda idx,sort:fill(sort)),st.mem.get(kind))
        else: s.havoc(st,kind,lambda k,o,_o=p.obj:s.aeq(o,_o))
        if st.writes is not None: st.writes.add((kind,None))
    def byteread(s,view,p,idx64):
        """byte at p+idx in view"""
        q=s.frm(p).add(idx64)
        kind,key,ix=s.key_for(q,8,False)
        g=s.gdef.get(tid(q.obj))
        if g is not None and g.const and ix is not None and z3.is_bv_value(simplify(q.total())):
            c=s.constglobal(q.obj,simplify(q.total()).as_long(),8,False,None)
            if c is not None: return c
        if kind.startswith(("A:","g:")) and key[0]=="f":
            # whole-object byte view of a local array: treat offset as index of the array at 0
            key=("a",0,8); ix=bv(q.off,64)
        return s.read(view,kind,key,q.obj,ix,B8)
    def memcpy(s,st,fr,I,d,sr,n):
        d,sr=s.frm(d),s.frm(sr); n=ZeroExt(64-n.size(),n) if n.size()<64 else n; nn=simplify(n)
        if is_true(simplify(nn==0)): return
        s.rangecheck(st,fr,I,d,n,"memcpy destination"); s.rangecheck(st,fr,I,sr,n,"memcpy source")
        kd=s.kind_of(d) or s.set_kind(st,d.obj,"raw"); ks=s.kind_of(sr) or s.set_kind(st,sr.obj,"raw")
        snap=Snap(st)
        s.spec.on_memcpy(s,st,fr,I,d,sr,nn)
        if z3.is_bv_value(nn) and kd!="raw" and ks!="raw" and d.idx is None and sr.idx is None:
            delta=sr.off-d.off
            def fn(key,idx,sort):
                if key[0]=="g": return None
                return s.read(snap,ks,(key[0],key[1]+delta,key[2]),sr.obj,idx,sort)
            st.mem[kd]=Log(("r",d.obj,d.off,nn.as_long(),fn),st.mem.get(kd))
        else:
            isarr=kd=="raw" or d.idx is not None
            st0=0 if kd=="raw" else (d.arr[0] if d.arr else d.off)
            lo=simplify(d.total() if kd=="raw" else ((d.idx if d.idx is not None else bv(0,64))+bv(d.off-st0,64)))
            def fn(idx,sort):
                if sort!=B8: return s.fresh("mc",sort)
                return s.byteread(snap,sr,simplify(idx-lo))
            st.mem[kd]=Log(("b",d.obj,st0,lo,nn,fn),st.mem.get(kd))
            if not isarr: s.havoc(st,kd,lambda k,o,_o=d.obj:(s.aeq(o,_o) if k[0]=="f" else False))
        if st.writes is not None: st.writes.add((kd,None))

class StopRun(Exception): pass

class Cand:
    def __init__(s,name,fn,univ=None): s.name=name; s.fn=fn; s.univ=univ
    holds2=None; assume2=None
    def holds(s,ex,st,phis,k):
        if s.holds2 is not None: return s.holds2(ex,st,phis,k)
        if s.univ is not None: return s.univ(ex,st,True)
        f=s.fn(st,phis,k)
        if f is None: return False
        if f is True: return True
        return ex.check(Not(f))==z3.unsat
    def assume(s,ex,st,phis,k):
        if s.assume2 is not None: return s.assume2(ex,st,phis,k)
        if s.univ is not None: s.univ(ex,st,False); return
        f=s.fn(st,phis,k)
        if f is not None: ex.assume(st,f)

class LoopCtx:
    def __init__(s,ex,fn,H,body,phis,init,entry,W,shape,lk,fr):
        s.ex=ex; s.fn=fn; s.header=H; s.body=body; s.phis=phis; s.init=init; s.entry=entry; s.W=W; s.shape=shape; s.lk=lk
        s.probing=False; s.newW=set(); s.bad=set(); s.reshape=False; s.names=[]; s.k=None; s.frenv=dict(fr.env)
    def inc(s,I):
        """constant step of an induction phi, if the back value is phi+c"""
        for pb,o in I.x:
            if pb in s.body and o[0]=="inst":
                d=s.find(o[1])
                if d is None: return None
                if d.op in("add","sub") and d.ops[0]==("inst",I.id) and d.ops[1][0]=="int":
                    c=d.ops[1][2]
                    return c if d.op=="add" else -c
                if d.op=="getelementptr" and d.ops[0]==("inst",I.id) and len(d.ops)==2 and d.ops[1][0]=="int":
                    v=d.ops[1][2]; w=d.ops[1][1]
                    if v>>(w-1): v-=1<<w
                    return v*d.x.size
        return None
    def guards(s,I):
        """loop-invariant values the phi is compared with"""
        r=[]
        for b in s.body:
            for x in s.fn.blocks[b].insts:
                if x.op=="icmp" and ("inst",I.id) in x.ops:
                    o=x.ops[1] if x.ops[0]==("inst",I.id) else x.ops[0]
                    if o[0]=="int": t=bv(o[2],o[1])
                    elif o[0]=="arg": t=s.frenv.get(("a",o[1]))
                    elif o[0]=="inst": t=s.frenv.get(o[1])
                    else: t=None
                    if isinstance(t,z3.BitVecRef) and t.size()==I.ty.w: r.append((x.id,t))
        return r
    def find(s,i):
        for b in s.fn.blocks:
            for x in b.insts:
                if x.id==i: return x
        return None
    def candidates(s,st,phis,k):
        ex=s.ex; out=[]
        for I in s.phis:
            c=s.inc(I); nm=I.name or str(I.id)
            if c is not None:
                if I.ty.k=="int" and I.ty.w>1:
                    w=I.ty.w
                    def f(st,ph,k,I=I,c=c,w=w):
                        kk=Extract(w-1,0,k) if w<64 else k
                        return ph[I.id]==s.init[I.id]+bv(c,w)*kk
                    out.append(Cand(f"affine:{I.id}",f))
                elif I.ty.k=="ptr":
                    def f(st,ph,k,I=I,c=c):
                        a,b=ex.frm(ph[I.id]),ex.frm(s.init[I.id])
                        if not a.obj.eq(b.obj): return None
                        return a.total()==b.total()+bv(c,64)*k
                    out.append(Cand(f"affine:{I.id}",f))
        for I in s.phis:
            if I.ty.k=="int" and I.ty.w>1 and z3.is_bv_value(simplify(s.init[I.id])):
                out.append(Cand(f"const:{I.id}",lambda st,ph,k,I=I:ph[I.id]==s.init[I.id]))
            if I.ty.k=="ptr":
                def f(st,ph,k,I=I):
                    a=ex.frm(ph[I.id])
                    arr=a.arr or ex.arrfield(ex.kind_of(a),a.off,a.obj)
                    if arr is None: return None
                    return ULE((a.idx if a.idx is not None else bv(0,64))+bv(a.off-arr[0],64),bv(arr[1],64))
                out.append(Cand(f"inarr:{I.id}",f))
            elif I.ty.k=="int" and I.ty.w>=16:
                c=s.inc(I)
                if c is None: out.append(Cand(f"nonneg:{I.id}",lambda st,ph,k,I=I:ph[I.id]>=0))
                elif c<0: out.append(Cand(f"leinit:{I.id}",lambda st,ph,k,I=I:And(ULE(ph[I.id],s.init[I.id]))))
                else:
                    out.append(Cand(f"geinit:{I.id}",lambda st,ph,k,I=I:And(ph[I.id]>=s.init[I.id])))
                if c is not None:
                    for J,t in s.guards(I):
                        out.append(Cand(f"guard:{I.id}:{J}",lambda st,ph,k,I=I,t=t,c=c:ph[I.id]<=t if c>0 else ph[I.id]>=t))
        out+=ex.spec.loop_candidates(ex,s,st)
        return out
    def havoc(s,st,fr,names):
        ex=s.ex
        ep=ex.newepoch(); ub=ex.ridmax
        bykind={}
        for kind,key in s.W:
            bykind.setdefault(kind,set()).add(key)
        for kind,keys in bykind.items():
            if kind.startswith("sc:"): 
                n=kind[3:]; old=st.sc.get(n); st.sc[n]=ex.fresh("sc."+n,old.sort() if old is not None else B64); continue
            if kind.startswith("ghost:") or None in keys: ex.havoc(st,kind,track=False)
            else:
                ks=set(keys)
                def flt(key,o,ks=ks):
                    if key in ks: return True
                    for q in ks:
                        if ex.overlap(q,key,None,None): return True
                    return False
                ex.havoc(st,kind,flt,track=False)
        s.k=ex.fresh("iter",B64); ph={}
        for I in s.phis:
            v=s.init[I.id]
            if I.ty.k=="ptr":
                b=ex.frm(v)
                if s.shape.get(I.id)=="any" or b.obj.eq(NULL) or b.obj.eq(NULL): ph[I.id]=Ptr(ex.fresh(f"phi_{I.name}",Obj))
                elif s.shape.get(I.id)=="same":
                    ph[I.id]=s.sameptr(b,I)
                else:
                    # unknown yet: first guess unchanged object, symbolic index when stepping
                    c=s.inc(I)
                    if c is not None or True: s.shape[I.id]="same"; ph[I.id]=s.sameptr(b,I)
                    else: s.shape[I.id]="any"; ph[I.id]=Ptr(ex.fresh(f"phi_{I.name}",Obj))
                if s.shape.get(I.id)=="any" : ex.note_ptr(st,ph[I.id].obj,ub)
            elif isinstance(v,dict): ph[I.id]={}
            else: ph[I.id]=ex.freshof(I.ty,f"phi_{I.name}")
        ex.spec.after_havoc(ex,s,st)
        for c in s.candidates(st,ph,s.k):
            if c.name in names: c.assume(ex,st,ph,s.k)
        return ph
    def sameptr(s,b,I):
        arr=b.arr
        if arr is None: arr=s.ex.arrfield(s.ex.kind_of(b),b.off,b.obj)
        return Ptr(b.obj,b.off,s.ex.fresh(f"phi_{I.name}",B64),arr)
    def back(s,st,fr,src):
        ex=s.ex
        ph={}
        for I in s.phis:
            for pb,o in I.x:
                if pb==src: ph[I.id]=ex.val(st,fr,o)
        if s.probing:
            for w in st.writes-s.W: s.newW.add(w)
            for I in s.phis:
                if I.ty.k=="ptr" and s.shape.get(I.id)=="same":
                    a,b=ex.frm(ph[I.id]),ex.frm(s.init[I.id])
                    if not a.obj.eq(b.obj): s.shape[I.id]="any"; s.reshape=True
            if s.reshape or s.newW-s.W: return
            cs=[c for c in s.candidates(st,ph,s.k+1) if c.name in s.assumed and c.name not in s.bad]
            got={c.name for c in cs}
            for n in s.assumed-got: s.bad.add(n)
            plain=[(c,c.fn(st,ph,s.k+1)) for c in cs if c.univ is None and c.holds2 is None]
            fs=[f for c,f in plain if f is not None and f is not True and not isinstance(f,bool)]
            for c,f in plain:
                if f is None or f is False: s.bad.add(c.name)
            for c,f in plain:
                if f is None or isinstance(f,bool): continue
                if is_true(simplify(f)): continue
                if ex.check(Not(f))!=z3.unsat: s.bad.add(c.name)
            for c in cs:
                if c.holds2 is not None:
                    if not c.holds2(ex,st,ph,s.k+1): s.bad.add(c.name)
                elif c.univ is not None and not c.univ(ex,st,True): s.bad.add(c.name)
        else:
            if not ex.probe: ex.res.paths+=1
    assumed=()

class Peel:
    """first iteration of a loop executed separately"""
    probing=False
    def __init__(s,h): s.header=h

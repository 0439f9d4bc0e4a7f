"""Relational contracts of the storage API (db.cpp) and the verification targets that prove them.
One Contract object serves both sides: `target()` proves it for the real body, `handler()` is what callers see."""
from .spec_db import *
CT="cache_target"
def two(): return []
class Ctx:
    """what a contract can talk about: pre-state, post-state, arguments, result"""
    def __init__(s,ex,w0,w,args,ret): s.ex=ex; s.w0=w0; s.w=w; s.a=args; s.r=ret
def expired(w,e): x=w.expires(e); return And(x!=0,x<w.now())
NO=BoolVal(False)
def robj(ex,p):
    o=ex.toobj(p) if isinstance(p,Ptr) else p
    return o
class Contract:
    name=None; props=(); nargs=0; argk=(); retk=None; budget=300; cost=1; shards=1; nparams=None; optional=False
    # exemptions from the frame; each: (c,x)->Bool term
    def x_fields(s,c,e): return NO      # an entry whose length/block/expiry/counter may change
    def x_writing(s,c,e): return NO
    def x_new(s,c,e): return NO
    def x_gone(s,c,e): return NO        # a held entry that may be released
    def x_del(s,c,e): return NO         # an entry that may become deleted
    def x_newt(s,c,t): return NO
    def x_delt(s,c,t): return NO
    def x_ts(s,c,e): return NO
    def x_gonet(s,c,t): return NO
    noalloc=(E,T,H,"raw")               # kinds of objects it never creates
    def x_sets(s,c): return False       # key sets may gain members
    def d_N(s,c): return None           # change of the number of entries (None: unspecified)
    def d_S(s,c): return None
    cursor=True                         # leaves the expiry cursor alone
    def d_eh(s,c,e): return bv(0,32)
    def d_th(s,c,t): return bv(0,32)
    def d_es(s,c,t): return bv(0,32)
    clockinc=0
    def pre(s,w,a): return []
    def rets(s,c): return []
    def proofs(s,ex,st,c): pass
    def ghost(s,ex,st,c): pass
    def mkargs(s,ex,st,spec): return []
    def frames(s,c_):
        """two-state clauses: (name,props,sorts,f(w0,w,*x))"""
        def mk(f): return f
        C=lambda w0,w: Ctx(c_.ex,w0,w,c_.a,c_.r)
        out=[]
        def fr(name,props,sorts,f): out.append((name,tuple(props.split()),sorts,f))
        fr("frame-entry","C02 C08 C06 C13 C16",(E,),lambda w0,w,e:Implies(And(w0.al(e),w.al(e),Not(s.x_new(C(w0,w),e))),And(w.tab(e)==w0.tab(e),w.hash(e)==w0.hash(e),w.key(e)==w0.key(e),w.klen(e)==w0.klen(e),w.expires(e)==w0.expires(e))))
        fr("frame-value","C08 C04 C03 C01",(E,),lambda w0,w,e:Implies(And(w0.al(e),w.al(e),Not(s.x_fields(C(w0,w),e)),Not(s.x_new(C(w0,w),e))),And(w.dlen(e)==w0.dlen(e),w.block(e)==w0.block(e),w.it(e)==w0.it(e))))
        fr("frame-writing","C07",(E,),lambda w0,w,e:Implies(And(w0.al(e),w.al(e),Not(s.x_writing(C(w0,w),e)),Not(s.x_new(C(w0,w),e))),w.writing(e)==w0.writing(e)))
        fr("frame-survives","C08 C09 C16",(E,),lambda w0,w,e:Implies(And(w0.al(e),Not(s.x_gone(C(w0,w),e))),w.al(e)))
        fr("frame-no-new-entry","C02 C16",(E,),lambda w0,w,e:Implies(And(w.al(e),Not(s.x_new(C(w0,w),e))),w0.al(e)))
        fr("frame-deleted","C16 C02 C07 C06 C19",(E,),lambda w0,w,e:And(Implies(And(w.D(e),Not(s.x_new(C(w0,w),e))),w0.D(e)),Implies(And(w0.D(e),Not(s.x_del(C(w0,w),e))),w.D(e))))
        fr("frame-table","C02 C16 C09",(T,),lambda w0,w,t:Implies(And(w0.al(t),w.al(t),Not(s.x_newt(C(w0,w),t))),And(w.thash(t)==w0.thash(t),w.tkey(t)==w0.tkey(t),w.tklen(t)==w0.tklen(t),Implies(w0.tdel(t),w.tdel(t)),Implies(Not(w.tdel(t)),w.chs(t)==w0.chs(t)))))
        fr("frame-table-survives","C09 C16",(T,),lambda w0,w,t:Implies(And(w0.al(t),Not(s.x_gonet(C(w0,w),t))),w.al(t)))
        same=not s.x_sets(c_)
        fr("frame-root","C09 C02",(),lambda w0,w:And(w.tables()==w0.tables(),*([w.g(1296,B32)==w0.g(1296,B32)] if s.cursor else []),*([w.nb(w.tables())==w0.nb(w0.tables())] if same else [])))
        if H in s.noalloc: fr("frame-no-new-set","C09",("Hset",),lambda w0,w,h:Implies(w.al(h),w0.al(h)))
        if "raw" in s.noalloc: fr("frame-no-new-memory","C09",("raw",),lambda w0,w,o:Implies(w.al(o),w0.al(o)))
        if not s.x_sets(c_): fr("frame-sets","C09 C02 C16",(("HK",),),lambda w0,w,hk:Implies(And(w0.al(hk[0]),w.al(hk[0])),And(w.nb(hk[0])==w0.nb(hk[0]),ULE(w.hsize(hk[0]),w0.hsize(hk[0])),Implies(w.EX(*hk),And(w0.EX(*hk),w.KEY(*hk)==w0.KEY(*hk),w.M(hk[0],w.KEY(*hk))==w0.M(hk[0],w0.KEY(*hk)))))))
        if s.d_N(c_) is not None: fr("entries-delta","C04",(),lambda w0,w:w.gN()==w0.gN()+s.d_N(C(w0,w)))
        if s.d_S(c_) is not None: fr("size-delta","C04 C19",(),lambda w0,w:w.gS()==w0.gS()+s.d_S(C(w0,w)))
        fr("frame-no-new-table","C02 C16",(T,),lambda w0,w,t:Implies(And(w.al(t),Not(s.x_newt(C(w0,w),t))),w0.al(t)))
        fr("frame-table-deleted","C16 C02",(T,),lambda w0,w,t:Implies(And(w0.al(t),w.al(t),w.tdel(t),Not(w0.tdel(t))),s.x_delt(C(w0,w),t)))
        fr("frame-recency","C05",(E,),lambda w0,w,e:Implies(And(w0.L(e),w.L(e),Not(s.x_ts(C(w0,w),e))),w.ts(e)==w0.ts(e)))
        fr("holders-entry","C09",(E,),lambda w0,w,e:Implies(Not(s.x_new(C(w0,w),e)),w.eh(e)==w0.eh(e)+s.d_eh(C(w0,w),e)))
        fr("holders-table","C09",(T,),lambda w0,w,t:Implies(Not(s.x_newt(C(w0,w),t)),And(w.th(t)==w0.th(t)+s.d_th(C(w0,w),t),w.esum(t)==w0.esum(t)+s.d_es(C(w0,w),t))))
        fr("clock","C05",(),lambda w0,w:w.clock()==w0.clock()+s.clockinc if isinstance(s.clockinc,int) else UGE(w.clock(),w0.clock()))
        return out
    # ---- proving it for the real body
    def target(s):
        K=s
        def setup(ex,st,spec):
            ex.safety=("C09",)
            spec.cur=K; spec.curargs=None
            args=K.mkargs(ex,st,spec)
            K.more_setup(ex,st,spec,args)
            spec.assume_inv(ex,st)
            pre=Snap(st); st.notes["pre"]=pre
            w0=W(ex,pre); spec.curargs=args; spec.pre0=pre
            for a_,k_ in zip(args,K.argk):
                if k_==E: spec.pairsum(ex,st,a_.obj,pre)
            if K.argk and K.argk[0]==CT: spec.pairsum(ex,st,tget(w0,args[0],0,Obj,E),pre)
            for cnd in K.pre(w0,args): ex.assume(st,cnd)
            K.register(ex,st,args)
            K.giveup(ex,st,Ctx(ex,w0,W(ex,st),args,None))
            def early(w0,w): return Ctx(ex,w0,w,args,None)
            st.notes["frames"]=tuple(K.loopframes(ex,args))
            def post(ex,st,ret):
                r=robj(ex,ret) if isinstance(ret,Ptr) else ret
                if K.retk and isinstance(ret,Ptr):
                    ex.okind.setdefault(tid(r),K.retk); ex.register(st,K.retk,r)
                c=Ctx(ex,W(ex,pre),W(ex,st),args,r)
                K.ghost(ex,st,c)
                c=Ctx(ex,W(ex,pre),W(ex,st),args,r)
                for nm,pp,cnd in K.rets(c): ex.oblige(st,cnd,nm,f"{K.name}: {nm}",tuple(pp.split()),assume=False)
                K.proofs(ex,st,c)
                for cl in K.frames(c): spec.prove(ex,st,cl,f"at exit of {K.name}",pre)
                spec.prove_inv(ex,st,f"at exit of {K.name}")
            return args,post
        t=Target(s.name,s.name,s.props,setup,budget=s.budget,nparams=s.nparams); t.cost=s.cost; t.shards=s.shards; t.optional=s.optional
        return t
    def more_setup(s,ex,st,spec,args): pass
    def giveup(s,ex,st,c): pass
    def register(s,ex,st,args):
        for a,k in zip(args,s.argk):
            if k in(E,T,N): ex.register(st,k,a.obj)
    def loopframes(s,ex,args):
        c=Ctx(ex,None,None,args,None)
        try: return s.frames(c)
        except Exception: return []
    # ---- what callers see
    def handler(s):
        K=s
        def h(ex,st,fr,I,a,done):
            spec=ex.spec
            args=[ex.frm(x) if isinstance(x,Ptr) else x for x in a]
            for x,k in zip(args,K.argk):
                if k in(E,T,N) and isinstance(x,Ptr): ex.okind.setdefault(tid(x.obj),k); ex.register(st,k,x.obj)
            sync_all(ex,st,spec,fr,I,K,[ex.toobj(args[i]) for i,k in enumerate(K.argk) if k==E])
            spec.prove_inv(ex,st,f"at the call of {K.name} at {spec.where(fr,I)}")
            w0=W(ex,st)
            spec.at_call(ex,st,K,args,spec.where(fr,I))
            for i,cnd in enumerate(K.pre(w0,args)): ex.oblige(st,cnd,f"call-{K.name}-{i}",f"precondition {i} of {K.name} at {spec.where(fr,I)}",("C09",)+tuple(K.preprops))
            pre=Snap(st)
            if K.retk: r=ex.fresh("ret_"+K.name,Obj); ex.okind[tid(r)]=K.retk
            elif I.ty.k=="void": r=None
            else: r=ex.freshof(I.ty,"ret_"+K.name)
            spec.havoc_db(ex,st,K.noalloc)
            c=Ctx(ex,W(ex,pre),W(ex,st),args,r)
            K.effect(ex,st,c)
            c=Ctx(ex,W(ex,pre),W(ex,Snap(st)),args,r)
            spec.assume_inv(ex,st)
            for nm,pp,cnd in K.rets(c): ex.assume(st,cnd)
            for cl in K.frames(c): spec.assume_clause(ex,st,cl,c.w.v,pre)
            if K.retk: ex.note_ptr(st,r,ex.ridmax); ex.register(st,K.retk,r)
            spec.after_call(ex,st,K,args,r)
            return done(st,Ptr(r) if K.retk else r)
        h.nparams=s.nparams
        return h
    preprops=()
    def effect(s,ex,st,c): pass

def sync(ex,st,spec,fr,I,K,e):
    """ghost code at a call that works on an entry in use: uses taken by plain reference counting become visible"""
    w=W(ex,st); ex.okind.setdefault(tid(e),E); t=w.tab(e)
    ex.register(st,E,e); ex.register(st,T,t)
    d=ZeroExt(16,w.refs(e))-w.eh(e)
    if is_true(simplify(d==0)) or ex.check(d!=0)==z3.unsat: return
    own=If(And(Not(w.tdel(t)),w.hsize(w.chs(t))!=0),bv(1,32),bv(0,32))
    es=w.esum(t)+d; th=ZeroExt(16,w.trefs(t))-own-es
    ex.oblige(st,And(ULT(w.eh(e)+d,bv(MAXH+100,32)),ULT(th,bv(MAXH+100,32))),"counted-use",f"at the call of {K.name} at {spec.where(fr,I)}: every reference that is counted is in use by somebody",("C09","C08"))
    ex.gset(st,"eh",[e],w.eh(e)+d); ex.gset(st,"esum",[t],es); ex.gset(st,"th",[t],th)
def take(ex,st,c,e,t,n):
    """ghost code: e is in use by n connections now; a use of its table turns into the use of the entry"""
    w=W(ex,st); d=simplify(n-w.eh(e)); ex.keep.append(d)
    ex.gset(st,"eh",[e],n); ex.gset(st,"esum",[t],w.esum(t)+d); ex.gset(st,"th",[t],w.th(t)-d)
def sync_all(ex,st,spec,fr,I,K,es):
    log=st.mem.get(E); seen={}
    while log is not None and log.e[0]!="h":
        if log.e[0]=="w" and log.e[2]==("f",26,16): seen[tid(log.e[1])]=log.e[1]
        log=log.prev
    for e in es: seen.setdefault(tid(e),e)
    for e in seen.values(): sync(ex,st,spec,fr,I,K,e)
def at_call(s,ex,st,K,args,where): pass
def after_call(s,ex,st,K,args,r): pass
DBSpec.at_call=at_call; DBSpec.after_call=after_call
DBKINDS=[E,T,N,H,HT,DBG,"ghost:alive","ghost:P","ghost:M","ghost:KEY","ghost:EX","ghost:SLOT","ghost:eh","ghost:th","ghost:esum","ghost:ts","ghost:tat","ghost:ins","ghost:dpt","ghost:nat","ghost:kE","ghost:kT","ghost:sT","ghost:bE","ghost:bN","ghost:fown"]
def havoc_db(s,ex,st,noalloc=()):
    for k in DBKINDS: 
        if k=="ghost:alive":
            st.mem[k]=Log(("d",ex.newepoch(),lambda args:ex.okind.get(tid(args[0])) in noalloc,ex.ridmax),st.mem.get(k))
            if st.writes is not None: st.writes.add((k,None))
        elif k==DBG: ex.havoc(st,k,lambda key,o:not(key[0]=="a") and key[1]!=1200)
        else: ex.havoc(st,k)
    for n in("N","S","clock","bflen"): ex.scset(st,n,ex.fresh("sc."+n,B64))
DBSpec.havoc_db=havoc_db

def P_(name): return name
def argobj(ex,name,kind,size=None):
    o=ex.fresh("arg."+name,Obj); ex.okind[tid(o)]=kind; ex.note_ptr(None,o,RB)
    ex.watch[name]=o
    return Ptr(o)
def keyarg(ex,st):
    k=ex.fresh("arg.key",Obj); ex.okind[tid(k)]="raw"; ex.note_ptr(None,k,RB); n=z3.BitVec("arg.length",64)
    ex.watch["length"]=n
    return Ptr(k),n
def owned_key(w,k,n,maxn):
    """the caller hands over a name of n bytes that nobody else owns"""
    return [And(k!=NULL,w.al(k),ULE(n,bv(maxn,64)),UGE(alen(k),n),w.kE(k)==NULL,w.kT(k)==NULL)]
def low(x,w): return Extract(w-1,0,x) if x.size()>w else x

class CompleteWriting(Contract):
    name="db_complete_writing"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C16"); argk=(E,)
    clockinc=1
    def mkargs(s,ex,st,spec): return [argobj(ex,"entry",E)]
    def pre(s,w,a): e=a[0].obj; return [And(e!=NULL,w.al(e),w.eh(e)!=0,w.writing(e),w.block(e)!=-2)]
    def x_writing(s,c,e): return e==c.a[0].obj
    def ghost(s,ex,st,c):
        e=c.a[0].obj; w=W(ex,st); n=simplify(w.clock()+1); ex.keep.append(n); ex.scset(st,"clock",n)
        ex.gset(st,"ts",[e],n); ex.gset(st,"tat",[n],e)
    def rets(s,c): e=c.a[0].obj; return [("completed","C07",Not(c.w.writing(e))),("most-recent","C05",c.w.ts(e)==c.w.clock())]

class TableClose(Contract):
    name="db_table_close"; props=("C02","C04","C05","C07","C09","C16"); argk=(T,)
    def mkargs(s,ex,st,spec): return [argobj(ex,"table",T)]
    def pre(s,w,a): t=a[0].obj; return [And(t!=NULL,w.th(t)!=0)]
    def d_th(s,c,t): return If(t==c.a[0].obj,bv(-1,32),bv(0,32))
    def x_gonet(s,c,t): return And(t==c.a[0].obj,c.w0.th(t)==1,c.w0.esum(t)==0)
    def d_N(s,c): return bv(0,64)
    def d_S(s,c): return bv(0,64)
    def giveup(s,ex,st,c): t=c.a[0].obj; ex.gset(st,"th",[t],c.w.th(t)-1)

class EntryDeref(Contract):
    name="db_entry_deref"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C16"); argk=(E,None)
    def d_N(s,c): return bv(0,64)
    def d_S(s,c): return bv(0,64)
    def mkargs(s,ex,st,spec): return [argobj(ex,"entry",E),z3.Bool("arg.table")]
    def pre(s,w,a):
        e=a[0].obj; t=s.b(a); return [And(e!=NULL,w.eh(e)!=0),Implies(Not(t),w.th(w.tab(e))+1!=0),Implies(w.writing(e),Or(w.deleted(e),UGT(w.eh(e),bv(1,32))))]
    def b(s,a): t=a[1]; return t if isinstance(t,z3.BoolRef) else t!=0
    def d_eh(s,c,e): return If(e==c.a[0].obj,bv(-1,32),bv(0,32))
    def d_es(s,c,t): return If(t==c.w0.tab(c.a[0].obj),bv(-1,32),bv(0,32))
    # without the table flag the table use goes back to the caller
    def d_th(s,c,t): return If(And(Not(s.b(c.a)),t==c.w0.tab(c.a[0].obj)),bv(1,32),bv(0,32))
    def x_gone(s,c,e): return And(e==c.a[0].obj,c.w0.eh(e)==1,c.w0.deleted(e))
    def x_gonet(s,c,t): return And(t==c.w0.tab(c.a[0].obj),s.b(c.a),c.w0.th(t)==0,c.w0.esum(t)==1,c.w0.tdel(t))
    def giveup(s,ex,st,c):
        e=c.a[0].obj; t=c.w0.tab(e)
        ex.gset(st,"eh",[e],c.w0.eh(e)-1); ex.gset(st,"esum",[t],c.w0.esum(t)-1)
        ex.gset(st,"th",[t],c.w0.th(t)+If(s.b(c.a),bv(0,32),bv(1,32)))

class GetDelete(Contract):
    name="db_entry_get_delete"; props=("C02","C08","C09","C16"); argk=(T,None,None); retk=E; other="writing"
    def mkargs(s,ex,st,spec): k,n=keyarg(ex,st); return [argobj(ex,"table",T),k,n]
    def pre(s,w,a): t=a[0].obj; return [And(t!=NULL,w.th(t)!=0)]+owned_key(w,a[1].obj,low(a[2],64),16383)
    def d_eh(s,c,e): return If(And(c.r!=NULL,e==c.r),bv(1,32),bv(0,32)) if c.r is not None else bv(0,32)
    def d_es(s,c,t): return If(And(c.r!=NULL,t==c.a[0].obj),bv(1,32),bv(0,32)) if c.r is not None else bv(0,32)
    def d_th(s,c,t): return If(And(c.r!=NULL,t==c.a[0].obj),bv(-1,32),bv(0,32)) if c.r is not None else bv(0,32)
    def ghost(s,ex,st,c):
        r=c.r; t=c.a[0].obj
        if r.eq(NULL): return
        take(ex,st,c,r,t,c.w0.eh(r)+If(r!=NULL,bv(1,32),bv(0,32)))
    def rets(s,c):
        w,r=c.w,c.r; k=c.a[1].obj
        out=[("key-released","C09",Implies(c.w0.al(k),Not(w.al(k))))]
        out.append(("exact","C02 C16",Implies(r!=NULL,And(w.D(r),w.tab(r)==c.a[0].obj,ZeroExt(48,w.klen(r))==c.a[2]))))
        return out
    def proofs(s,ex,st,c):
        s.exactbytes(ex,st,c); s.whynull(ex,st,c)
    def exactbytes(s,ex,st,c):
        r=c.r
        if r.eq(NULL): return
        j=ex.fresh("sk.byte",B64); w0=c.w0
        for e in st.events:
            if e[0]=="cmp": ex.register(st,"byteix",j)
        rb=lambda o: ex.read(w0.v,"raw",("a",0,8),o,j,B8)
        ex.oblige(st,Implies(And(r!=NULL,ULT(j,c.a[2])),rb(c.a[1].obj)==rb(w0.key(r))),"exact-bytes",f"{s.name}: the stored name has the requested bytes",("C02","C16"),assume=False)
    def nullreasons(s,ex,st,c,e): return []
    def whynull(s,ex,st,c):
        r=c.r; w0=c.w0; t=c.a[0].obj
        hs=st.notes.get("hashes",())
        if not hs:
            ex.oblige(st,Implies(r==NULL,w0.tdel(t)),"not-found",f"{s.name}: nothing is found only if nothing matches",("C02","C16"),assume=False); return
        p,n,x=hs[0]; h=w0.chs(t); e=w0.M(h,x)
        reasons=[w0.tdel(t),Not(w0.P(h,x)),ZeroExt(48,w0.klen(e))!=c.a[2]]+s.nullreasons(ex,st,c,e)
        for ev in st.events:
            if ev[0]=="cmp": reasons.append(And(ULT(ev[5],c.a[2]),ev[6](ev[5])!=ev[7](ev[5])))
        ex.oblige(st,And(*[Or(hn[0].obj.eq(c.a[1].obj),False) for hn in hs]) if False else BoolVal(p.obj.eq(c.a[1].obj) and is_true(simplify(SignExt(32,n)==c.a[2])) or ex.check(SignExt(32,n)!=c.a[2])==z3.unsat),"hash-of-name",f"{s.name}: the lookup uses the hash of the whole name",("C02",),assume=False)
        ex.oblige(st,Implies(r==NULL,Or(*reasons)),"not-found",f"{s.name}: nothing is found only if nothing matches",("C02","C16","C06"),assume=False)

class GetRead(GetDelete):
    name="db_entry_get_read"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C16"); cost=3
    clockinc="mono"
    def x_del(s,c,e): return expired(c.w0,e)
    def x_gone(s,c,e): return And(expired(c.w0,e),c.w0.eh(e)==0)
    def x_delt(s,c,t): return And(t==c.a[0].obj) if c.r is None else And(t==c.a[0].obj,c.r==NULL)
    def x_ts(s,c,e): return And(c.r!=NULL,e==c.r) if c.r is not None else NO
    def ghost(s,ex,st,c):
        super().ghost(ex,st,c)
        r=c.r
        if r.eq(NULL): return
        w=W(ex,st); n=simplify(w.clock()+1); ex.keep.append(n); ex.scset(st,"clock",n)
        ex.gset(st,"ts",[r],n); ex.gset(st,"tat",[n],r)
    def rets(s,c):
        w,r=c.w,c.r
        return super().rets(c)+[("complete-only","C07",Implies(r!=NULL,Not(w.writing(r)))),("not-expired","C06",Implies(r!=NULL,Not(expired(w,r)))),("most-recent","C05",Implies(r!=NULL,w.ts(r)==w.clock()))]
    def nullreasons(s,ex,st,c,e): return [expired(c.w0,e),c.w0.writing(e)]
    def proofs(s,ex,st,c):
        super().proofs(ex,st,c)
        hs=st.notes.get("hashes",()); w0=c.w0
        if hs:
            h=w0.chs(c.a[0].obj); e=w0.M(h,hs[0][2])
            ex.oblige(st,Implies(And(Not(w0.tdel(c.a[0].obj)),w0.P(h,hs[0][2]),expired(w0,e)),Not(c.w.D(e))),"expired-removed",f"{s.name}: reading an expired value removes it",("C06",),assume=False)

class GetWrite(GetDelete):
    name="db_entry_get_write"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C14","C16"); cost=9; budget=600; shards=4
    def x_new(s,c,e): return And(c.r!=NULL,e==c.r) if c.r is not None else Not(c.w0.al(e))
    def x_del(s,c,e): return Or(expired(c.w0,e),And(c.w0.tab(e)==c.a[0].obj,Not(c.w0.writing(e))),c.w0.L(e))
    def x_delt(s,c,t): return BoolVal(True)
    def x_gone(s,c,e): return c.w0.eh(e)==0
    def x_gonet(s,c,t): return And(c.w0.th(t)==0,c.w0.esum(t)==0)
    def x_sets(s,c): return True
    noalloc=(T,H,"raw")
    cursor=False
    clockinc="mono"
    def ghost(s,ex,st,c):
        r=c.r; t=c.a[0].obj; w=c.w
        if r.eq(NULL): return
        take(ex,st,c,r,t,If(r!=NULL,bv(1,32),w.eh(r)))
    def rets(s,c):
        w,r=c.w,c.r; k=c.a[1].obj; t=c.a[0].obj
        return [("key-released","C09",Implies(r==NULL,Not(w.al(k)))),
          ("fresh","C02 C07",Implies(r!=NULL,And(w.D(r),Not(c.w0.al(r)),w.writing(r),w.tab(r)==t))),("fresh-key","C02",Implies(r!=NULL,And(w.key(r)==k,ZeroExt(48,w.klen(r))==c.a[2]))),("fresh-empty","C07 C04",Implies(r!=NULL,And(w.block(r)==-2,w.dlen(r)==0))),("no-expiry","C06",Implies(r!=NULL,w.expires(r)==0)),("held","C07 C09",Implies(r!=NULL,w.eh(r)==1))]
    def proofs(s,ex,st,c):
        w0=c.w0; t=c.a[0].obj; hs=st.notes.get("hashes",())
        if not hs:
            ex.oblige(st,Implies(c.r==NULL,w0.tdel(t)),"refused",f"{s.name}: refused only if the table was deleted or the key is being uploaded",("C02","C07"),assume=False); return
        h=w0.chs(t); x=hs[0][2]; e=w0.M(h,x)
        ex.oblige(st,Implies(c.r==NULL,Or(w0.tdel(t),And(w0.P(h,x),w0.writing(e)))),"refused",f"{s.name}: refused only if the table was deleted or the key is being uploaded",("C02","C07"),assume=False)
        ex.oblige(st,Implies(And(w0.P(h,x),w0.writing(e),Not(w0.tdel(t))),c.r==NULL),"busy",f"{s.name}: an upload in progress is not replaced",("C07",),assume=False)
        if not c.r.eq(NULL): ex.oblige(st,Implies(c.r!=NULL,c.w.hash(c.r)==x),"hash-of-name",f"{s.name}: stored under the hash of its name",("C02",),assume=False)

class EntryHandleDelete(Contract):
    name="db_entry_handle_delete"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C14","C16","C19"); argk=(E,); nparams=1; cost=2
    def d_N(s,c): return If(c.w0.deleted(c.a[0].obj),bv(0,64),bv(-1,64))
    def d_S(s,c): e=c.a[0].obj; return If(c.w0.deleted(e),bv(0,64),-ZeroExt(32,c.w0.dlen(e)))
    def mkargs(s,ex,st,spec): return [argobj(ex,"entry",E)]
    def pre(s,w,a): e=a[0].obj; return [And(e!=NULL,w.eh(e)!=0)]
    def x_del(s,c,e): return e==c.a[0].obj
    def x_delt(s,c,t): return t==c.w0.tab(c.a[0].obj)
    def rets(s,c):
        e=c.a[0].obj; r=c.r if isinstance(c.r,z3.BoolRef) else c.r!=0
        return [("deleted","C16 C06 C19",c.w.deleted(e)),("table-gone","C09 C16",r==And(Not(c.w0.deleted(e)),c.w.tdel(c.w0.tab(e))))]

class TableHandleDelete(Contract):
    name="db_table_handle_delete"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C14","C16"); argk=(T,); nparams=1; cost=20; budget=500
    def mkargs(s,ex,st,spec): return [argobj(ex,"table",T)]
    def pre(s,w,a): t=a[0].obj; return [And(t!=NULL,w.th(t)!=0)]
    def x_del(s,c,e): return c.w0.tab(e)==c.a[0].obj
    def x_gone(s,c,e): return And(c.w0.tab(e)==c.a[0].obj,c.w0.eh(e)==0)
    def x_delt(s,c,t): return t==c.a[0].obj
    def rets(s,c): return [("deleted","C16",c.w.tdel(c.a[0].obj))]
    def frames(s,c_):
        return super().frames(c_)
    def proofs(s,ex,st,c):
        ex.push(); old=ex.spec.maxd; ex.spec.maxd=2
        try:
            st2=st.copy(); e=ex.fresh("sk.e",Obj); ex.okind[tid(e)]=E; ex.register(st2,E,e)
            ex.oblige(st2,Implies(And(c.w0.D(e),c.w0.tab(e)==c.a[0].obj),Not(c.w.D(e))),"all-deleted","db_table_handle_delete: every value of the table is deleted",("C16",),assume=False)
        finally: ex.pop(); ex.spec.maxd=old

class TableGetRead(Contract):
    name="db_table_get_read"; props=("C02","C09","C16"); argk=(None,None); retk=T; newok=False; cost=2
    def mkargs(s,ex,st,spec):
        k,n=keyarg(ex,st); n=z3.BitVec("arg.length",32); ex.watch["length"]=n; spec.peel_on=True; return [k,n]
    def pre(s,w,a): return [a[1]>=0]+owned_key(w,a[0].obj,ZeroExt(32,a[1]),16383)
    def d_th(s,c,t): return If(And(c.r!=NULL,t==c.r),bv(1,32),bv(0,32)) if c.r is not None else bv(0,32)
    def ghost(s,ex,st,c):
        r=c.r
        if r.eq(NULL): return
        ex.gset(st,"th",[r],c.w0.th(r)+If(r!=NULL,bv(1,32),bv(0,32)))
    def rets(s,c):
        w,r=c.w,c.r; k=c.a[0].obj
        return [("name-released","C09",Not(w.al(k))),("exact","C02 C16",Implies(r!=NULL,And(w.al(r),Not(w.tdel(r)),ZeroExt(16,w.tklen(r))==c.a[1],w.th(r)!=0)))]
    def proofs(s,ex,st,c):
        r=c.r; w0=c.w0; j=ex.fresh("sk.byte",B64); n=ZeroExt(32,c.a[1])
        ex.register(st,"byteix",j)
        rb=lambda o: ex.read(w0.v,"raw",("a",0,8),o,j,B8)
        if not r.eq(NULL): ex.oblige(st,Implies(And(r!=NULL,w0.al(r),ULT(j,n)),rb(c.a[0].obj)==rb(w0.tkey(r))),"exact-bytes",f"{s.name}: the table found has the requested name",("C02","C16"),assume=False)
        hs=st.notes.get("hashes",())
        if hs:
            x=hs[0][2]; t=w0.M(w0.tables(),x); ex.okind.setdefault(tid(t),T)
            rs=[Not(w0.P(w0.tables(),x)),ZeroExt(16,w0.tklen(t))!=c.a[1]]
            for ev in st.events:
                if ev[0]=="cmp": rs.append(And(ULT(ev[5],n),ev[6](ev[5])!=ev[7](ev[5])))
            hit=And(r!=NULL,r==t) if not r.eq(NULL) else NO
            ex.oblige(st,Or(hit,*rs),"not-found",f"{s.name}: the table stored under the hash of the name is found if it has that name",("C02",),assume=False)
            ex.oblige(st,SignExt(32,hs[0][1])==n,"hash-of-name",f"{s.name}: the lookup uses the hash of the whole name",("C02",),assume=False)
class TableGetWrite(TableGetRead):
    name="db_table_get_write"; newok=True; cost=3
    def x_sets(s,c): return True
    noalloc=(E,"raw")
    def x_newt(s,c,t): return And(t==c.r,Not(c.w0.al(t))) if c.r is not None else Not(c.w0.al(t))
    def rets(s,c):
        w,r=c.w,c.r; k=c.a[0].obj
        return [("name-released","C09",Implies(c.w0.al(r),Not(w.al(k)))),("exact","C02 C16",And(r!=NULL,w.al(r),Not(w.tdel(r)),ZeroExt(16,w.tklen(r))==c.a[1],w.th(r)!=0)),
            ("new-name","C02",Implies(Not(c.w0.al(r)),w.tkey(r)==k)),("held-once","C09",Implies(Not(c.w0.al(r)),w.th(r)==1))]
    def ghost(s,ex,st,c):
        r=c.r; new=r not in () and ex.ridof.get(tid(r),0)>RB
        ex.gset(st,"th",[r],bv(1,32) if new else c.w0.th(r)+1)
class TargetEntryClose(Contract):
    name="db_target_entry_close"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C14","C16"); argk=(CT,)
    def mkargs(s,ex,st,spec): return [argtarget(ex)]
    def ent(s,w,a): return tget(w,a[0],0,Obj,E)
    def pre(s,w,a):
        e=s.ent(w,a); return [Implies(e!=NULL,And(w.eh(e)!=0,Implies(w.writing(e),Or(w.deleted(e),UGT(w.eh(e),bv(1,32))))))]
    def register(s,ex,st,a): ex.register(st,E,s.ent(W(ex,st),a))
    def yes(s,c,e): x=s.ent(c.w0,c.a); return And(x!=NULL,e==x)
    def d_eh(s,c,e): return If(s.yes(c,e),bv(-1,32),bv(0,32))
    def d_es(s,c,t): x=s.ent(c.w0,c.a); return If(And(x!=NULL,t==c.w0.tab(x)),bv(-1,32),bv(0,32))
    def x_gone(s,c,e): return And(s.yes(c,e),c.w0.eh(e)==1,c.w0.deleted(e))
    def x_gonet(s,c,t): x=s.ent(c.w0,c.a); return And(x!=NULL,t==c.w0.tab(x),c.w0.th(t)==0,c.w0.esum(t)==1,c.w0.tdel(t))
    def giveup(s,ex,st,c):
        e=s.ent(c.w0,c.a); t=c.w0.tab(e); y=If(e!=NULL,bv(1,32),bv(0,32))
        ex.gset(st,"eh",[e],c.w0.eh(e)-y); ex.gset(st,"esum",[t],c.w0.esum(t)-y)
    def rets(s,c): return [("target-cleared","C09",tget(c.w,c.a[0],0,Obj,E)==NULL)]
    def effect(s,ex,st,c):
        tset(ex,st,c.a[0],0,NULL); tset(ex,st,c.a[0],8,bv(0,64)); tset(ex,st,c.a[0],24,If(s.ent(c.w0,c.a)!=NULL,bv(-1,32),tget(c.w0,c.a[0],24,B32)))
AS_VIEW=None
def argtarget(ex): return Ptr(ex.region("arg.target",CT,bv(32,64)))
def tget(w,p,off,sort,kind=None):
    w_=sort.size() if isinstance(sort,z3.BitVecSortRef) else 64
    v=w.ex.read(w.v,w.ex.kind_of(p),("f",p.off+off,w_),p.obj,None,sort)
    if kind and w.ex.kind_of(p)=="scache_connection": return AS_VIEW(w.ex,v,kind)
    if kind: w.ex.okind.setdefault(tid(v),kind)
    return v
def tset(ex,st,p,off,v):
    w_=v.sort().size() if isinstance(v.sort(),z3.BitVecSortRef) else 64
    ex.write(st,ex.kind_of(p),("f",p.off+off,w_),p.obj,None,v)
PT[(CT,0)]=E
class WriteAllocate(Contract):
    name="db_target_write_allocate"; props=("C01","C03","C04","C05","C07","C08","C09","C14","C16"); argk=(CT,None); cost=4; budget=500
    def mkargs(s,ex,st,spec): n=z3.BitVec("arg.data_length",32); ex.watch["data_length"]=n; return [argtarget(ex),n]
    def ent(s,w,a): return tget(w,a[0],0,Obj,E)
    def pre(s,w,a):
        e=s.ent(w,a); fd=tget(w,a[0],24,B32)
        return [And(e!=NULL,w.eh(e)!=0,w.writing(e)),a[1]>=0,Or(fd==-1,And(fd>=0,Or(fd==w.fdblk(),w.single(e))))]
    def register(s,ex,st,a):
        w=W(ex,st); e=s.ent(w,a); ex.register(st,E,e); ex.assume(st,ULT(w.exist(),bv(2147483646,32)))
        ex.res.assumptions.add("the block file stays below 2^31-2 blocks (8 TiB)")
    def x_fields(s,c,e): return e==s.ent(c.w0,c.a)
    def ghost(s,ex,st,c):
        if "P" not in ex.spec.groups(ex): return
        w=W(ex,st); e=s.ent(w,c.a); x=w.path(e); o=w.fown(x); ex.register(st,E,o)
        fail=And(w.single(e),w.D(e),tget(w,c.a[0],24,B32)<0)
        ex.assume(st,Implies(fail,Not(And(w.D(o),w.single(o),w.path(o)==x,o!=e))))
        ex.res.assumptions.add("when every attempt to create a value file failed, the last name tried is not the name of another value's file")
        ex.gset(st,"fown",[x],If(fail,e,o))
    def rets(s,c):
        w,w0=c.w,c.w0; e=s.ent(w0,c.a); p=c.a[0]; n=c.a[1]
        pos,end,fd=tget(w,p,8,B64),tget(w,p,16,B64),tget(w,p,24,B32)
        big=UGT(n,bv(BLOCK,32))
        return [("same-entry","C01 C09",tget(w,p,0,Obj,E)==e),("length","C04 C01",w.dlen(e)==n),
            ("in-block","C01 C03",Implies(Not(big),And(w.block(e)>=0,fd==w.fdblk(),pos==SignExt(32,w.block(e))*BLOCK))),
            ("in-file","C01 C14",Implies(big,And(w.block(e)==-1,pos==0,fd>=-1,Or(fd==-1,fd!=w.fdblk())))),
            ("extent","C01",end==pos+ZeroExt(32,n)),("allocated","C07",w.block(e)!=-2)]
    def effect(s,ex,st,c):
        for off,srt in((8,B64),(16,B64),(24,B32)): tset(ex,st,c.a[0],off,ex.fresh("target",srt))
class TargetSetup(Contract):
    name="db_target_setup"; props=("C01","C03","C08","C09","C14"); argk=(CT,E,None)
    def mkargs(s,ex,st,spec): return [argtarget(ex),argobj(ex,"entry",E),z3.Bool("arg.write")]
    def b(s,a): t=a[2]; return t if isinstance(t,z3.BoolRef) else t!=0
    def pre(s,w,a):
        e=tget(w,a[0],0,Obj,E); return [And(a[1].obj==e,e!=NULL,w.eh(e)!=0)]
    def rets(s,c):
        w=c.w; e=c.a[1].obj; p=c.a[0]; rd=And(Not(s.b(c.a)),Not(w.writing(e))); pos,end,fd=tget(w,p,8,B64),tget(w,p,16,B64),tget(w,p,24,B32)
        return [("same-entry","C01 C09",tget(w,p,0,Obj,E)==e),("no-file","C01 C09",Implies(s.b(c.a),fd==-1)),
          ("extent","C01",Implies(rd,end==pos+ZeroExt(32,w.dlen(e)))),
          ("in-block","C01 C08",Implies(And(rd,Not(w.single(e))),And(fd==w.fdblk(),pos==SignExt(32,w.block(e))*BLOCK))),
          ("in-file","C01 C08",Implies(And(rd,w.single(e)),And(pos==0,Or(fd==-1,fd!=w.fdblk()))))]
    def proofs(s,ex,st,c):
        if "P" in ex.spec.groups(ex):
            w=c.w; e=c.a[1].obj; op=st.notes.get("opened",())
            ok=[And(x==w.path(e),fd==tget(w,c.a[0],24,B32)) for x,fl,fd in op[-1:] if x is not None]
            ex.oblige(st,Implies(And(Not(s.b(c.a)),w.single(e)),Or(*ok)),"own-file","db_target_setup: a read opens the file of exactly this value",("C14","C08"),assume=False)
    def effect(s,ex,st,c):
        for off,srt in((8,B64),(16,B64),(24,B32)): tset(ex,st,c.a[0],off,ex.fresh("target",srt))
class LruGc(Contract):
    name="db_lru_gc"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C14","C16","C19"); argk=(); cost=3; budget=500
    def over(s,w): return And(w.maxsize()!=0,ULT(w.maxsize(),w.size()))
    def x_del(s,c,e): return Or(expired(c.w0,e),And(s.over(c.w0),c.w0.L(e)))
    def x_gone(s,c,e): return And(c.w0.eh(e)==0,s.x_del(c,e))
    def x_gonet(s,c,t): return And(c.w0.th(t)==0,c.w0.esum(t)==0)
    cursor=False
    def x_delt(s,c,t): return BoolVal(True)
class ExpireCursor(Contract):
    name="db_expire_cursor"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C16","C19"); argk=(); cost=5; budget=600
    def x_del(s,c,e): return expired(c.w0,e)
    def x_gone(s,c,e): return And(c.w0.eh(e)==0,s.x_del(c,e))
    def x_gonet(s,c,t): return And(c.w0.th(t)==0,c.w0.esum(t)==0)
    cursor=False
    def x_delt(s,c,t): return BoolVal(True)
class ExpireTable(Contract):
    """a part of db_expire_cursor: when the code has no such function the body is verified inside its caller"""
    name="db_expire_cursor_table"; props=("C09","C05","C06","C08","C03","C04","C16","C07","C19","C02"); argk=(T,); cost=5; budget=600; optional=True
    def mkargs(s,ex,st,spec): return [argobj(ex,"table",T)]
    def pre(s,w,a): t=a[0].obj; return [And(t!=NULL,w.al(t),Not(w.tdel(t)))]
    def x_del(s,c,e): return And(expired(c.w0,e),c.w0.tab(e)==c.a[0].obj)
    def x_gone(s,c,e): return And(c.w0.eh(e)==0,s.x_del(c,e))
    def x_gonet(s,c,t): return And(t==c.a[0].obj,c.w0.th(t)==0,c.w0.esum(t)==0)
    def x_delt(s,c,t): return t==c.a[0].obj
class CleanupPercent(Contract):
    name="db_lru_cleanup_percent"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C16","C19"); argk=(None,); cost=4; budget=500
    def mkargs(s,ex,st,spec): 
        p=Ptr(ex.region("arg.bytes","raw",bv(8,64))); return [p]
    def x_del(s,c,e): return c.w0.L(e)
    def x_gone(s,c,e): return And(c.w0.eh(e)==0,s.x_del(c,e))
    def x_gonet(s,c,t): return And(c.w0.th(t)==0,c.w0.esum(t)==0)
    def x_delt(s,c,t): return BoolVal(True)
    def effect(s,ex,st,c):
        kind,key,idx=ex.key_for(c.a[0],64,False); ex.write(st,kind,key,c.a[0].obj,idx,ex.fresh("bytes_to_remove",B64))
W.maxsize=lambda s: s.ex.read(s.v,"g:settings",("f",0,64),s.ex.globobj("db","settings"),None,B64)
ALL=[CompleteWriting(),TableClose(),EntryDeref(),GetDelete(),GetRead(),GetWrite(),EntryHandleDelete(),TableHandleDelete(),TableGetRead(),TableGetWrite(),TargetEntryClose(),WriteAllocate(),TargetSetup(),LruGc(),ExpireCursor(),ExpireTable(),CleanupPercent()]
BY={c.name:c for c in ALL}
# contracts used instead of bodies while verifying a given function
USES={"db_entry_get_write":["db_lru_gc"],"db_lru_gc":["db_expire_cursor","db_lru_cleanup_percent","db_index_flush"],"db_target_entry_close":["db_entry_deref"],
 "db_entry_get_read":["db_entry_handle_delete","db_entry_deref"],"db_expire_cursor":["db_expire_cursor_table","db_entry_handle_delete","db_entry_deref"],"db_expire_cursor_table":["db_entry_handle_delete","db_entry_deref"],"db_lru_cleanup_percent":["db_entry_handle_delete","db_entry_deref"]}
def mk_for(name):
    def mk():
        s=DBSpec(); s.peel_on=False
        for u in USES.get(name,()):
            if u in BY: s.h[u]=BY[u].handler()
            elif u=="db_index_flush":
                s.h[u]=lambda ex,st,fr,I,a,done:done(st,ex.freshof(I.ty,"flush"))
        return s
    return mk
def targets(): return [(mk_for(c.name),c.target()) for c in ALL]

"""The HTTP layer: contracts of the request and response handlers (http_parse*.cpp, http_respond.cpp, http.cpp).
Every handler is a step of one connection: it starts in the typestate of that handler, and ends in the typestate of the
handler it leaves installed, with the uses of entries and tables it holds accounted exactly."""
from .spec_dbt import *
from . import spec_dbt
import re
CONN="scache_connection"
SIZE=16488; RB=40
RP,WP,ST,ME,WR,EI,EO,LT,TG=16424,16426,16428,16432,16434,16435,16436,16440,16448
GET,PURGE,PUT,DELETE,HEAD,ADMIN=0x100,0x80,0x40,0x20,0x10,0x200
KEY,TABLE=4,2
CLOSE,REGW,MORE,CONT=0,1,2,3
HDR={1:b"content-length",2:b"x-ttl",3:b"x-limit",4:b"x-start",5:b"x-delete"}
def as_view(ex,v,kind):
    """the target pointer of a connection seen as an entry or as a table"""
    k=ex.okind.get(tid(v))
    if v.eq(NULL) or k==kind: return v
    f=z3.Function("as_"+kind,Obj,Obj)(v)
    if tid(f) not in ex.okind:
        ex.okind[tid(f)]=kind; ex.keep.append(f)
    ex.note_ptr(None,f,ex.ridub.get(tid(v),ex.ridmax))
    ex.pending_add((v==NULL)==(f==NULL))
    return f
spec_dbt.AS_VIEW=as_view
class CV:
    """one connection in one view"""
    def __init__(s,ex,view,conn): s.ex=ex; s.v=view; s.o=conn
    def f(s,off,sort): return s.ex.read(s.v,CONN,("f",off,sort.size() if sort is not Obj else 64),s.o,None,sort)
    out=property(lambda s:s.f(0,Obj)); free=property(lambda s:s.f(8,Obj)); handler=property(lambda s:s.f(24,Obj))
    outlen=property(lambda s:s.f(32,B32)); sock=property(lambda s:s.f(36,B32))
    rp=property(lambda s:s.f(RP,B16)); wp=property(lambda s:s.f(WP,B16)); rem=property(lambda s:simplify(s.wp-s.rp))
    state=property(lambda s:s.f(ST,B32)); method=property(lambda s:s.f(ME,B16)); ltype=property(lambda s:s.f(LT,B32))
    isw=property(lambda s:simplify(Extract(0,0,s.f(WR,B8))==1)); ein=property(lambda s:simplify(Extract(0,0,s.f(EI,B8))==1)); eout=property(lambda s:simplify(Extract(0,0,s.f(EO,B8))==1))
    raw=property(lambda s:s.f(TG,Obj))
    ent=property(lambda s:as_view(s.ex,s.raw,E)); tab=property(lambda s:as_view(s.ex,s.raw,T))
    pos=property(lambda s:s.f(TG+8,B64)); end=property(lambda s:s.f(TG+16,B64)); fd=property(lambda s:s.f(TG+24,B32))
    start=property(lambda s:s.f(TG+8,B32)); limit=property(lambda s:s.f(TG+12,B32))
    def m(s,b): return simplify((s.method&bv(b,16))!=0)
    key=property(lambda s:s.m(KEY)); tbl=property(lambda s:s.m(TABLE))
    def onebit(s,*bits): return Or(*[(s.method&bv(0x3f0,16))==b for b in bits])
    hasE=property(lambda s:And(s.key,s.ent!=NULL)); hasT=property(lambda s:And(Not(s.key),s.tbl,s.tab!=NULL))
    def ownE(s,e): return If(And(s.key,e!=NULL,e==s.ent),bv(1,32),bv(0,32))
    def ownT(s,t): return If(And(Not(s.key),s.tbl,t!=NULL,t==s.tab),bv(1,32),bv(0,32))
    def byte(s,j): return byte_at(s.ex,s.v,Ptr(s.o,RB),j)
    def at(s,q): return s.ex.read(s.v,CONN,("a",RB,8),s.o,simplify(ZeroExt(48,q)&bv(BS-1,64)),B8)
def base(w,e): return If(w.single(e),bv(0,64),SignExt(32,w.block(e))*BLOCK)
# ---------- typestates
def general(c,w):
    e,t=c.ent,c.tab
    return [("buffer-valid","C10 C11 C09",ULE(c.rem,bv(BS,16))),("uses-its-entry","C09",Implies(c.hasE,w.eh(e)!=0)),("uses-its-table","C09",Implies(c.hasT,w.th(t)!=0)),
      ("upload-state","C07 C09 C03 C04",Implies(c.isw,And(c.key,c.m(PUT),e!=NULL,w.writing(e)))),
      ("reads-complete-value","C07 C08",Implies(And(c.hasE,Or(c.m(GET),c.m(HEAD))),Not(w.writing(e)))),
      ("upload-file","C01 C03",Implies(c.isw,Or(c.fd==-1,And(c.fd>=0,Or(c.fd==w.fdblk(),w.single(e))))))]
def idle(c,w): return [("holds-nothing","C09",And(Not(c.hasE),Not(c.hasT))),("not-uploading","C07 C09",Not(c.isw))]
def noout(c,w): return [("nothing-pending","C12",And(c.out==NULL,c.free==NULL))]
def constout(c,w): return [("no-owned-output","C12",c.free==NULL)]
def reading(c,w): return [("reading","C12",And(c.ein,Not(c.eout)))]
def writing_(c,w): return [("writing","C12",And(c.eout,Not(c.ein)))]
def reader(c,w,started=False):
    e=c.ent; p=c.pos==base(w,e) if not started else And(ULE(base(w,e),c.pos),ULE(c.pos,c.end))
    return [("reader-extent","C01",Implies(And(c.hasE,Or(c.m(GET),c.m(HEAD))),And(p,c.end==base(w,e)+ZeroExt(32,w.dlen(e)),If(w.single(e),c.fd!=w.fdblk(),c.fd==w.fdblk()))))]
def writer(c,w,started=False):
    e=c.ent; p=c.pos==base(w,e) if not started else And(ULE(base(w,e),c.pos),ULE(c.pos,c.end))
    return [("writer-extent","C01 C03 C07",Implies(And(c.isw,w.dlen(e)!=0),And(w.block(e)!=-2,p,c.end==base(w,e)+ZeroExt(32,w.dlen(e)),w.dlen(e)>=0,
        If(w.single(e),And(w.block(e)==-1,c.fd!=w.fdblk()),And(w.block(e)>=0,c.fd==w.fdblk()))))),
      ("writer-flag","C07",Implies(And(c.key,c.m(PUT)),c.isw==(c.ent!=NULL))),
      ("ignored-upload","C04 C01",Implies(And(c.key,c.m(PUT),c.ent==NULL),And(c.pos>=0,c.pos<=c.end,c.end<=bv(0x7fffffff,64),*([] if started else [c.pos==0]))))]
def keylevel(c,*ms): return And(c.key,Not(c.tbl),c.onebit(*ms))
def ts_method(c,w): return idle(c,w)+noout(c,w)+reading(c,w)
def ts_url(c,w): return [("url-level","C02 C09",And(Not(c.key),Not(c.isw),c.onebit(GET,PURGE,PUT,DELETE,HEAD,ADMIN),If(c.state==0,Not(c.tbl),And(c.tbl,c.tab!=NULL))))]+noout(c,w)+reading(c,w)
def ts_version(c,w): return [("key-level","C02 C09",keylevel(c,GET,PUT,DELETE,HEAD)),("no-length-yet","C07 C04",Implies(c.isw,w.dlen(c.ent)==0))]+reader(c,w)+writer(c,w)+constout(c,w)+reading(c,w)
def ts_headers(c,w): return [("key-or-table-level","C02 C09 C16",Or(keylevel(c,GET,PUT,DELETE,HEAD),And(c.tbl,Not(c.key),c.onebit(GET,DELETE,PURGE),Not(c.isw))))]+reader(c,w)+writer(c,w)+constout(c,w)+reading(c,w)
def ts_body(c,w): return [("upload-level","C07",And(keylevel(c,PUT),Implies(c.isw,w.dlen(c.ent)!=0)))]+writer(c,w,True)+constout(c,w)+reading(c,w)
def ts_eol(c,w): return constout(c,w)+reading(c,w)
def ts_respkey(c,w): return [("response-level","C01 C12",And(keylevel(c,GET,HEAD),c.ent!=NULL,Not(c.isw)))]+reader(c,w)+writing_(c,w)
def ts_content(c,w): return [("response-level","C01 C12",And(keylevel(c,GET),c.ent!=NULL,Not(c.isw)))]+reader(c,w,True)+writing_(c,w)
def ts_any(c,w): return writing_(c,w)
def ts_listing(c,w): return [("listing-level","C15 C09",And(c.tbl,Not(c.key),c.onebit(GET),c.tab!=NULL,Not(c.isw)))]+writing_(c,w)
TS=dict(http_cache_handle_method=ts_method,http_cache_handle_url=ts_url,http_cache_handle_httpversion=ts_version,http_cache_handle_headers=ts_headers,http_cache_handle_headers_extract=ts_headers,
  http_cache_handle_request_body=ts_body,http_cache_handle_eolstats=ts_eol,http_handle_eolwritetoend=ts_eol,http_respond_expires=ts_respkey,http_respond_contentlength=ts_respkey,http_respond_responseend=ts_respkey,
  http_respond_contentbody=ts_content,http_respond_reset_connection=ts_any,http_respond_writeonly=ts_any,http_respond_stats=ts_any,
  http_respond_listingentries=ts_listing,http_respond_listingtotal=ts_listing,http_respond_listing=ts_listing,http_respond_listing_separator=ts_listing,http_respond_close_connection=ts_any)
WRITEPHASE={n for n in TS if n.startswith("http_respond")}
def levels(c): return {1:And(c.key,c.m(PUT)),2:And(c.key,c.m(PUT)),3:And(c.tbl,c.m(GET)),4:And(c.tbl,c.m(GET)),5:And(c.tbl,c.m(PURGE))}
def u64(x): return ZeroExt(64-x.size(),x) if x.size()<64 else x

class HSpec(DBSpec):
    def __init__(s,step):
        super().__init__(); s.step=step; s.cur=None; s.conn=None; s.pre0=None
        for n,c in BY.items():
            if not getattr(c,"optional",False): s.h[n]=c.handler()
    def cv(s,ex,view): return CV(ex,view,s.conn)
    def unroll(s,ex,fr): return s.step.unroll
    # ----- target pointer
    def kind_by_use(s,ex,mod,fn,i,depth=0):
        got=None
        for b in fn.blocks:
            for x in b.insts:
                ops=[o for o in x.ops if o[0]!="block"] if x.ops else []
                if x.op=="getelementptr" and ops and ops[0]==i and x.x.k=="struct" and x.x.name in(E,T): return x.x.name
                if x.op in("call","invoke") and i in ops:
                    cal=x.x[0] if x.op=="invoke" else x.x
                    if cal[0]!="func": continue
                    j=ops.index(i); f=ex.P.resolve(mod,cal[1]); bn=base_name(ex.P.dem.get(cal[1],cal[1]))
                    if bn in BY and j<len(BY[bn].argk) and BY[bn].argk[j] in(E,T): return BY[bn].argk[j]
                    if f is not None and not f.decl and depth<4:
                        k=s.kind_by_use(ex,f.module,f,("arg",j),depth+1)
                        if k: return k
                if x.op=="phi" and depth<4 and any(o==i for pb,o in x.x):
                    k=s.kind_by_use(ex,mod,fn,("inst",x.id),depth+1)
                    if k: return k
        return None
    def on_load(s,ex,st,fr,I,p,kind,key,idx):
        if kind==CONN:
            if key==("f",TG,64):
                k=s.kind_by_use(ex,fr.fn.module,fr.fn,("inst",I.id))
                if k is None: return None
                v=as_view(ex,ex.read(st,kind,key,p.obj,None,Obj),k); ex.register(st,k,v); return Ptr(v)
            if key==("a",RB,8):
                c=s.cv(ex,st); off=simplify((idx-u64(c.rp))&bv(BS-1,64))
                ex.oblige(st,ULT(off,u64(c.rem)),"received",f"read at {s.where(fr,I)}: only a byte that was received and is not yet consumed is looked at",("C11",))
        if kind.endswith("http_templates_length") and key[0]=="a" and idx is not None:
            i=simplify(idx); n=s.tlen(ex,i)
            if n is not None: return n
        return super().on_load(ex,st,fr,I,p,kind,key,idx)
    def tlen(s,ex,i):
        t=TEMPLATES(ex.P)
        if z3.is_bv_value(i): k=i.as_long()//4; return bv(len(t[k]),32) if k<len(t) and i.as_long()%4==0 else None
        v=bv(0,32)
        for k,b in enumerate(t): v=If(i==4*k,bv(len(b),32),v)
        return v
    def on_store(s,ex,st,fr,I,p,kind,key,idx,v):
        if kind==CONN and s.conn is not None and p.obj.eq(s.conn):
            if key==("f",RP,16) and s.step.consume:
                c=s.cv(ex,st)
                ex.oblige(st,ULE(v-c.rp,c.rem),"consumed",f"at {s.where(fr,I)}: no more is consumed than was received",("C11","C01"))
                ex.assume(st,ULE(c.wp-v,c.rem))     # what is left is at most what there was
            if key[0]=="a" and key[1]==RB: ex.oblige(st,BoolVal(False),"input-unchanged",f"store at {s.where(fr,I)}: received bytes are not changed",("C11","C10"))
        if kind==E and s.conn is not None: s.step.entry_store(ex,st,s,fr,I,p,key,v)
        return super().on_store(ex,st,fr,I,p,kind,key,idx,v)
    def at_call(s,ex,st,K,args,where): s.step.at_call(ex,st,s,K,args,where)
    def after_call(s,ex,st,K,args,r): s.step.after_call(ex,st,s,K,args,r)
    def indirect(s,ex,st,fr,I,fp,args,done): return s.step.indirect(ex,st,s,fr,I,fp,args,done)
    # ----- the invariant is only proved again when the storage state changed
    def dbview(s,st): return tuple(id(st.mem.get(k)) for k in DBKINDS)+tuple(tid(st.sc[n]) if n in st.sc else 0 for n in("N","S","clock","bflen"))
    def assume_inv(s,ex,st,view=None):
        super().assume_inv(ex,st,view); st.notes=dict(st.notes); st.notes["invat"]=s.dbview(st); st.notes["invkeep"]=[st.mem.get(k) for k in DBKINDS]
    def prove_inv(s,ex,st,what="at exit",frames=()):
        if st.notes.get("invat")==s.dbview(st): return
        super().prove_inv(ex,st,what,frames)
    # ----- loops over the input
    def loop_candidates(s,ex,ctx,st):
        out=super().loop_candidates(ex,ctx,st)
        if s.conn is None: return out
        c0=s.cv(ex,ctx.entry); ri=u64(c0.rp)&bv(BS-1,64); rem=u64(c0.rem); end=If(ULT(rem,bv(BS,64)-ri),rem,bv(BS,64)-ri)
        def ext(x): return SignExt(64-x.size(),x) if x.size()<64 else x
        ns=[(I.id,lambda st,ph,I=I: ext(ph[I.id])) for I in ctx.phis if I.ty.k=="int" and I.ty.w>=16 and ctx.inc(I) in(1,None)]
        wk={k for k,key in ctx.W}
        for b in ctx.fn.blocks:
            for I in b.insts:
                if I.op!="alloca" or I.x.k!="int" or not 16<=I.x.w<=64: continue
                p=ctx.frenv.get(I.id)
                if p is None: continue
                kd=ex.kind_of(p)
                if kd not in wk: continue
                key=ex.key_for(p,I.x.w,False)[1]
                f=lambda st,ph,p=p,kd=kd,key=key,so=BitVecSort(I.x.w): ext(ex.read(st,kd,key,p.obj,None,so))
                ns.append((f"c{I.id}",f)); f0=f(ctx.entry,None)
                out.append(Cand(f"cell:{I.id}",lambda st,ph,k,f=f,f0=f0: f(st,ph)==f0+k))
        lv=levels(c0)
        for nm,g in ns:
            n=lambda st,ph,g=g: g(st,ph)
            out.append(Cand(f"le-rem:{nm}",lambda st,ph,k,n=n: And(n(st,ph)>=0,n(st,ph)<=rem)))
            for J in ctx.phis:
                if J.ty.k!="ptr": continue
                def at(st,ph,k,n=n,J=J):
                    q=ex.frm(ph[J.id])
                    if not q.obj.eq(s.conn): return None
                    return q.total()-RB==If(n(st,ph)<=end,ri+n(st,ph),n(st,ph)-end)
                out.append(Cand(f"at:{nm}:{J.id}",at))
            b16=lambda st,ph,k,n=n: simplify(Extract(15,0,n(st,ph)))
            out.append(Cand(f"first:{nm}",lambda st,ph,k,n=n: Implies(n(st,ph)>0,c0.byte(bv(0,64))==47)))
            for ch in b" /:\n\r":
                for lo in(0,1): out.append(s.univpos(f"nochar:{nm}:{ch}:{lo}",ctx.entry,b16,lambda x,ch=ch:x!=ch,lo))
            for code,name in HDR.items():
                for v in(name,{1:b"Content-Length",2:b"X-Ttl",3:b"X-Limit",4:b"X-Start",5:b"X-Delete"}[code]):
                    if v==name and code==1: continue
                    out.append(Cand(f"hdr:{nm}:{v.decode()}",lambda st,ph,k,n=n,v=v,l=lv[code]: Implies(And(l,n(st,ph)>len(v)),Not(And(*[c0.byte(bv(j,64))==b for j,b in enumerate(v+b":")])))))
        if any(k==CONN and key==("f",RP,16) for k,key in ctx.W):
            out.append(Cand("rp-step",lambda st,ph,k: And(s.cv(ex,st).rp==c0.rp+Extract(15,0,k),ULE(k,rem))))
            out.append(Cand("rp-le",lambda st,ph,k: And(ULE(s.cv(ex,st).rp-c0.rp,Extract(15,0,k)),ULE(k,rem))))
            gone=lambda st,ph,k: s.cv(ex,st).rp-c0.rp
            out.append(s.univpos("lead:space",ctx.entry,gone,lambda x:x==32)); out.append(s.univpos("lead:nl",ctx.entry,gone,lambda x:Or(x==10,x==13)))
        if any(k==CONN for k,key in ctx.W):
            for off,so in((WP,B16),(ME,B16),(24,Obj),(TG,Obj),(WR,B8),(LT,B32)):
                out.append(Cand(f"same:{off}",lambda st,ph,k,off=off,so=so: s.cv(ex,st).f(off,so)==c0.f(off,so)))
            lim=lambda st: s.cv(ex,st).limit
            out.append(Cand("limit-le",lambda st,ph,k: ULE(lim(st),c0.limit))); out.append(Cand("limit-step",lambda st,ph,k: lim(st)==c0.limit-Extract(31,0,k)))
            out.append(Cand("start-same",lambda st,ph,k: s.cv(ex,st).start==c0.start))
            out.append(s.univslot("slots-done",ctx.entry,lambda st,j: And(ULE(lim(st),j-c0.start),ULT(j-c0.start,c0.limit))))
            out.append(Cand("state0",lambda st,ph,k: Or(s.cv(ex,st).state==c0.state,s.cv(ex,st).state==0)))
        return out
    def univslot(s,name,entry,rng):
        """candidate: no slot of the listed table in the given range holds a key"""
        c=Cand(name,None)
        def f(ex,st,h,j):
            w=W(ex,entry); t=CV(ex,entry,s.conn).tab
            return Implies(And(h==w.chs(t),h!=NULL,rng(st,j)),Not(w.EX(h,j)))
        def holds(ex,st,ph,k):
            w=W(ex,entry); h=w.chs(CV(ex,entry,s.conn).tab); j=ex.fresh("sk.slot",B32); ex.push()
            try:
                ex.register(st,("HK",),(h,j))
                return ex.check(Not(f(ex,st,h,j)))==z3.unsat
            finally: ex.pop()
        def assume(ex,st,ph,k):
            v=Snap(st); ex.assume_univ(st,Univ("slots",("HK",),lambda vv,hj:f(ex,v,hj[0],hj[1]),None))
            pass
        c.holds2=holds; c.assume2=assume
        return c
    def univpos(s,name,entry,bound,pred,lo=0):
        """candidate: every received byte from position lo up to bound (counted from the loop's start) satisfies pred"""
        c=Cand(name,None)
        def f(ex,q,b):
            v=CV(ex,entry,s.conn); off=q-v.rp
            return Implies(And(ULE(bv(lo,16),off),ULT(off,b)),pred(v.at(q)))
        def holds(ex,st,ph,k):
            j=ex.fresh("sk.pos",B16); ex.push()
            try:
                ex.register(st,"upos",j)
                return ex.check(Not(f(ex,j,bound(st,ph,k))))==z3.unsat
            finally: ex.pop()
        def assume(ex,st,ph,k):
            b=bound(st,ph,k); ex.keep.append(b)
            ex.assume_univ(st,Univ("nochar","upos",lambda vv,q:f(ex,q,b),None))
        c.holds2=holds; c.assume2=assume
        return c
    # ----- input buffer contracts (proved against their bodies for C10)
    def isrb(s,ex,p):
        p=ex.frm(p); return s.conn is not None and p.obj.eq(s.conn) and p.off==RB and p.idx is None
    def inline(s,ex,st,fr,I,name,a,done):
        f=ex.P.find(name); ex.res.inlined.add(name)
        nf=ex.start(f,a,st); nf.ret=lambda st2,v: done(st2,v)
        return None
    def c_rbuf_copyn(s,ex,st,fr,I,a,done):
        if not s.isrb(ex,a[0]): return s.inline(ex,st,fr,I,"rbuf_copyn",a,done)
        d=ex.frm(a[1]); n=a[2]; c=s.cv(ex,st); rem=ZeroExt(16,c.rem); at=s.where(fr,I)
        ex.oblige(st,n>=0,"copy-length",f"copy at {at}: the length is not negative",("C11","C09"))
        m=simplify(If(n<rem,n,rem)); m64=ZeroExt(32,m)
        ex.rangecheck(st,fr,I,d,m64,"copy from the input")
        v=s.cv(ex,Snap(st))
        kd=ex.kind_of(d) or ex.set_kind(st,d.obj,"raw"); lo=simplify(d.total() if kd=="raw" else (d.idx if d.idx is not None else bv(0,64)))
        st.mem[kd]=Log(("b",d.obj,0 if kd=="raw" else (d.arr[0] if d.arr else d.off),lo,m64,lambda idx,sort:v.byte(simplify(idx-lo)) if sort==B8 else ex.fresh("cp",sort)),st.mem.get(kd))
        if st.writes is not None: st.writes.add((kd,None))
        st.events=st.events+(("copyn",d,n,c.rp),)
        return done(st,m)
    def c_rbuf_cmpn(s,ex,st,fr,I,a,done):
        n=simplify(a[2]); b=s.cstr(ex,a[1])
        if not s.isrb(ex,a[0]) or b is None or not z3.is_bv_value(n): return s.inline(ex,st,fr,I,"rbuf_cmpn",a,done)
        n=n.as_long(); ex.oblige(st,BoolVal(len(b)>=n),"compare-constant",f"comparison at {s.where(fr,I)}: inside the constant",("C11","C10"))
        c=s.cv(ex,st); r=ex.fresh("cmpn",B32); b=b[:n]
        eq=And(UGE(c.rem,bv(n,16)),*[c.byte(bv(j,64))==x for j,x in enumerate(b)])
        ex.assume(st,(r==0)==eq)
        return done(st,r)
    def c_rbuf_strntol(s,ex,st,fr,I,a,done):
        if not s.isrb(ex,a[0]): return s.inline(ex,st,fr,I,"rbuf_strntol",a,done)
        c=s.cv(ex,st); ok=ex.fresh("isnum",z3.BoolSort()); v=ex.fresh("num",B32); mx=a[2]
        ex.assume(st,Implies(ok,And(v>=0,mx!=0,mx>=-1)))
        ex.store(st,fr,FakeI(B32i,I.line),v,a[1])
        st.events=st.events+(("num",c.rp,mx,ok,v),)
        return done(st,ok)
    # ----- system calls
    def seterrno(s,ex,st): 
        o=ex.region("errno","errno",bv(4,64)); ex.write(st,"errno",("f",0,32),o,None,ex.fresh("errno",B32))
    def errno(s,ex,st): return ex.read(st,"errno",("f",0,32),ex.region("errno","errno",bv(4,64)),None,B32)
    def io(s,ex,st,fr,I,name,a,p,n,done,w=64):
        r=ex.fresh(name,BitVecSort(w))
        if p is not None:
            q=ex.frm(p)
            if q.obj.eq(s.conn):
                c=s.cv(ex,st); i=simplify(q.total()-RB)
                ex.oblige(st,Or(n==0,And(((i-u64(c.rp))&bv(BS-1,64))+n<=u64(c.rem),ULE(n,bv(BS,64)),ULE(i+n,bv(BS,64)))),"received",f"{name} at {s.where(fr,I)}: only received bytes are used",("C11","C01"))
            else: ex.rangecheck(st,fr,I,p,n,name)
        ex.assume(st,And(r>=-1,r<=n)); s.seterrno(ex,st)
        st.events=st.events+((name,tuple(a),r,Snap(st)),)
        return done(st,r)
    def c_write(s,ex,st,fr,I,a,done): return s.io(ex,st,fr,I,"write",a,a[1],word(a[2],64),done)
    def c_pwrite64(s,ex,st,fr,I,a,done): return s.io(ex,st,fr,I,"pwrite",a,a[1],word(a[2],64),done)
    c_pwrite=c_pwrite64
    def c_send(s,ex,st,fr,I,a,done): return s.io(ex,st,fr,I,"write",a,a[1],word(a[2],64),done)
    def c_lseek64(s,ex,st,fr,I,a,done):
        r=ex.fresh("lseek",B64); s.seterrno(ex,st); st.events=st.events+(("lseek",tuple(a),r,None),); return done(st,r)
    c_lseek=c_lseek64
    def c_sendfile64(s,ex,st,fr,I,a,done):
        p=ex.frm(a[2]); off=None
        if not p.obj.eq(NULL):
            kind,key,idx=ex.key_for(p,64,False); off=ex.read(st,kind,key,p.obj,idx,B64)
        r=ex.fresh("sendfile",B64); n=word(a[3],64)
        ex.assume(st,And(r>=-1,Implies(r>0,ULE(r,n)))); s.seterrno(ex,st)
        if off is not None: ex.write(st,kind,key,p.obj,idx,simplify(off+If(r>0,r,bv(0,64))))
        st.events=st.events+(("sendfile",tuple(a)+(off,),r,None),)
        return done(st,r)
    c_sendfile=c_sendfile64
    def c_read(s,ex,st,fr,I,a,done):
        p=ex.frm(a[1]); n=word(a[2],64); r=ex.fresh("read",B64); at=s.where(fr,I)
        if p.obj.eq(s.conn):
            c=s.cv(ex,st); i=simplify(p.total()-RB)
            ex.oblige(st,Or(n==0,And(((i-u64(c.wp))&bv(BS-1,64))==0,ULE(n,bv(BS,64)-u64(c.rem)),ULE(n,bv(BS,64)),ULE(i+n,bv(BS,64)))),"free-space",f"read at {at}: received bytes go behind the ones already there, into free space",("C10","C11","C09"))
            ex.havoc(st,CONN,lambda key,o:key[0]=="a")
        else: ex.rangecheck(st,fr,I,p,n,"read"); s.bufhavoc(ex,st,p)
        ex.assume(st,And(r>=-1,r<=n)); s.seterrno(ex,st)
        st.events=st.events+(("read",tuple(a),r,Snap(st)),)
        return done(st,r)
    def c_snprintf(s,ex,st,fr,I,a,done):
        fmt=s.cstr(ex,a[2]); n=simplify(word(a[1],64)); r0=len(st.events)
        def fin(st2,r):
            mx=fmtmax(s,ex,fmt,a[3:])
            if mx is not None and mx[1]<4096:
                d=ex.frm(a[0]); lo=simplify(d.idx) if d.idx is not None else bv(0,64)
                small=z3.is_bv_value(lo) and lo.as_long()<32768 or lo.decl().kind()==z3.Z3_OP_CONCAT and lo.num_args()==2 and lo.arg(1).size()==16 and z3.is_bv_value(lo.arg(0)) and lo.arg(0).as_long()==0
                if small:
                    # the position after the text gets a name of its own
                    end=ex.fresh("end",BitVecSort(16)); e64,e32=ZeroExt(48,end),ZeroExt(16,end); lo32=simplify(Extract(31,0,lo))
                    ex.assume(st2,And(ULE(lo32+mx[0],e32),ULE(e32,lo32+mx[1])))
                    r=simplify(e32-lo32); ex.wide[tid(r)]=simplify(e64-lo); ex.keep.append(r)
            ex.assume(st2,And(r>=0,*([r<=mx[1],r>=mx[0]] if mx is not None else [])))
            ex.oblige(st2,ULT(ZeroExt(32,r),n),"complete-text",f"snprintf at {s.where(fr,I)}: the text fits its buffer",("C12",))
            st2.events=st2.events[:r0]+(("text",ex.frm(a[0]),fmt,tuple(a[3:]),r,Snap(st2)),)
            return done(st2,r)
        return super().c_snprintf(ex,st,fr,I,a,fin)
    def c_strncmp(s,ex,st,fr,I,a,done): return done(st,ex.fresh("strncmp",B32))
    def c_strlen(s,ex,st,fr,I,a,done):
        b=s.cstr(ex,a[0])
        return done(st,bv(len(b),64) if b is not None else ex.fresh("strlen",B64))
    def cstr(s,ex,p):
        p=ex.frm(p); g=ex.gdef.get(tid(p.obj))
        if g is None or not g.const or g.init is None: return None
        if p.idx is not None and not z3.is_bv_value(simplify(p.idx)): return None
        return cbytes(g.init,simplify(p.total()).as_long())
    def c_malloc(s,ex,st,fr,I,a,done):
        def fin(st2,v):
            o=v.obj
            if ex.okind.get(tid(o)) in(None,"raw"):
                ex.set_kind(st2,o,"raw"); ex.gset(st2,"kE",[o],NULL); ex.gset(st2,"kT",[o],NULL)
                st2.notes=dict(st2.notes); st2.notes["mine"]=st2.notes.get("mine",())+(o,)
            return done(st2,v)
        return super().c_malloc(ex,st,fr,I,a,fin)
    def c_epoll_ctl(s,ex,st,fr,I,a,done): return done(st,ex.fresh("epoll_ctl",B32))
    def c_cache_destroy(s,ex,st,fr,I,a,done): return DESTROY.handler()(ex,st,fr,I,a,done)
    def c_http_read_handle(s,ex,st,fr,I,a,done):
        """what reading further input does: any sequence of steps of this connection (each proved separately)"""
        w=W(ex,st); c=s.cv(ex,st); at=s.where(fr,I)
        s.prove_inv(ex,st,f"at the call of http_read_handle at {at}")
        hn=s.handler_name(ex,c)
        for nm,pp,cnd in general(c,w)+(TS[hn](c,w) if hn in TS else [("known-handler","C09",BoolVal(False))]): ex.oblige(st,cnd,"next:"+nm,f"before further input is handled at {at}: {nm}",tuple(pp.split()))
        s.step.finished(ex,st,s)
        pre=Snap(st); s.havoc_db(ex,st,()); ex.havoc(st,CONN)
        st.notes=dict(st.notes); st.notes["opaque"]=id(st.mem.get(CONN)); st.notes["opkeep"]=st.mem.get(CONN)
        s.assume_inv(ex,st); r=ex.fresh("ret_read_handle",B32)
        return done(st,r)
    def handler_name(s,ex,c):
        p=ex.frm(c.handler); fd=ex.fdef.get(tid(p.obj))
        if fd is None or isinstance(fd,str): return None
        return base_name(fd.demangled)
def cbytes(c,off):
    if c[0]=="str": return c[2][off:].split(b"\0")[0]
    if c[0]=="zero": return b""
    if c[0]=="agg" and c[1].k=="array":
        i=off//c[1].elt.size
        return cbytes(c[2][i],off-i*c[1].elt.size) if i<len(c[2]) else None
    return None
def fmtmax(s,ex,fmt,args):
    """bounds of the length of a formatted text"""
    if fmt is None: return None
    lo=hi=0; args=list(args)
    for m in re.finditer(rb"%(\d*)(l{0,2}|z)([dux%csp])|([^%])|(%.)",fmt,re.S):
        if m.group(5): return None
        if m.group(4): lo+=1; hi+=1; continue
        if m.group(3)==b"%": lo+=1; hi+=1; continue
        a=args.pop(0) if args else None
        if m.group(3)==b"s":
            b=s.cstr(ex,a) if isinstance(a,Ptr) else None
            if b is None: return None
            lo+=len(b); hi+=len(b)
        elif m.group(3)==b"c": lo+=1; hi+=1
        else:
            n={b"d":(1,11),b"u":(1,10),b"x":(1,8)}[m.group(3)] if not m.group(2) else {b"d":(1,20),b"u":(1,20),b"x":(1,16)}[m.group(3)]
            lo+=n[0]; hi+=n[1]
    return lo,hi
_T={}
def TEMPLATES(P):
    if id(P) not in _T:
        out=None
        for m in P.mods.values():
            for g in m.globals.values():
                if "http_templates" in g.name and "length" not in g.name and g.init is not None and g.const:
                    n=g.ty.size//g.ty.elt.size; out=[cbytes(g.init,i*g.ty.elt.size) for i in range(n)]; break
            if out: break
        _T[id(P)]=out
    return _T[id(P)]

# ---------- releasing a connection's hold
def derived(c,w):
    """an entry being written has a writing connection (writer-stays), which also uses it"""
    return Implies(And(c.hasE,w.writing(c.ent),Not(c.isw)),UGE(w.eh(c.ent),bv(2,32)))
class Destroy(Contract):
    name="cache_destroy"; props=("C02","C03","C04","C05","C06","C07","C08","C09","C12","C14","C16"); argk=(CONN,); preprops=("C07",); budget=500
    def cv(s,w,a): return CV(w.ex,w.v,a[0].obj)
    def mkargs(s,ex,st,spec):
        o=ex.region("arg.connection",CONN,bv(SIZE,64)); spec.conn=o; return [Ptr(o)]
    def pre(s,w,a):
        c=s.cv(w,a); return [c.ltype==2]+[cnd for n,p,cnd in general(c,w)]+[derived(c,w)]
    def register(s,ex,st,a):
        c=CV(ex,st,a[0].obj); ex.register(st,E,c.ent); ex.register(st,T,c.tab); ex.spec.pairsum(ex,st,c.ent,Snap(st)); ex.register(st,T,W(ex,st).tab(c.ent))
    def own(s,c,e): k=s.cv(c.w0,c.a); return And(k.hasE,e==k.ent)
    def isw(s,c): return s.cv(c.w0,c.a).isw
    def x_del(s,c,e): return And(s.own(c,e),s.isw(c))
    x_writing=x_del
    def x_gone(s,c,e): return And(s.own(c,e),c.w0.eh(e)==1,Or(c.w0.deleted(e),s.isw(c)))
    def x_delt(s,c,t): k=s.cv(c.w0,c.a); return And(k.hasE,k.isw,t==c.w0.tab(k.ent))
    def x_gonet(s,c,t): 
        k=s.cv(c.w0,c.a); return Or(And(k.hasE,t==c.w0.tab(k.ent),c.w0.th(t)==0,c.w0.esum(t)==1),And(k.hasT,t==k.tab,c.w0.th(t)==1,c.w0.esum(t)==0))
    def d_eh(s,c,e): return -s.cv(c.w0,c.a).ownE(e)
    def d_es(s,c,t): k=s.cv(c.w0,c.a); return If(And(k.hasE,t==c.w0.tab(k.ent)),bv(-1,32),bv(0,32))
    def d_th(s,c,t): return -s.cv(c.w0,c.a).ownT(t)
    def rets(s,c):
        k=s.cv(c.w,c.a); k0=s.cv(c.w0,c.a)
        return [("released","C09",And(Not(k.hasE),Not(k.hasT),Not(k.isw))),("upload-dropped","C07",Implies(k0.isw,And(Not(c.w.D(k0.ent)),Not(And(c.w.al(k0.ent),c.w.writing(k0.ent))))))]
    KEEP=((0,Obj),(8,Obj),(24,Obj),(32,B32),(36,B32),(RP,B16),(WP,B16),(ST,B32),(ME,B16),(EI,B8),(EO,B8),(LT,B32))
    def proofs(s,ex,st,c):
        k=s.cv(c.w,c.a); k0=s.cv(c.w0,c.a)
        ex.oblige(st,And(*[k.f(o,so)==k0.f(o,so) for o,so in s.KEEP]),"rest-unchanged","cache_destroy: nothing else of the connection changes",("C09","C12","C11"),assume=False)
    def effect(s,ex,st,c):
        o=c.a[0].obj; k0=s.cv(c.w0,c.a); r=ex.fresh("raw",Obj); lvl=Or(k0.key,k0.tbl)
        ex.note_ptr(st,r,ex.ridmax)
        ex.assume(st,If(lvl,r==NULL,r==k0.raw)); ex.write(st,CONN,("f",TG,64),o,None,r)
        for off,so in((TG+8,B64),(TG+16,B64),(TG+24,B32)): ex.write(st,CONN,("f",off,so.size()),o,None,ex.fresh("target",so))
        wr=ex.fresh("is_writing",B8); ex.assume(st,And(Extract(7,1,wr)==0,Implies(k0.key,Extract(0,0,wr)==0),Implies(Not(k0.key),wr==k0.f(WR,B8)))); ex.write(st,CONN,("f",WR,8),o,None,wr)
DESTROY=Destroy()

# ---------- one step of a connection
def status(b): 
    m=re.match(rb"HTTP/1\.[01] (\d{3}) [^\r\n]*\r\n",b or b""); return int(m.group(1)) if m else None
def complete(b):
    """a whole response: status line, header lines, blank line, and a body of exactly the announced length"""
    m=re.fullmatch(rb"HTTP/1\.[01] \d{3} [^\r\n]*\r\n((?:[^\r\n:]+:[^\r\n]*\r\n)*)\r\n(.*)",b or b"",re.S)
    if not m: return False
    n=[int(x.split(b":",1)[1]) for x in m.group(1).split(b"\r\n") if x.lower().startswith(b"content-length:")]
    return len(n)==1 and n[0]==len(m.group(2))
def headlines(b): return re.fullmatch(rb"HTTP/1\.[01] 200 [^\r\n]*\r\n(?:[^\r\n:]+:[^\r\n]*\r\n)*",b or b"") is not None
def nocrlf(x): return And(x!=10,x!=13)
def crlf(x): return Or(x==10,x==13)
class Step:
    unroll=False; consume=True; free=False
    samereq=True       # keeps method and target
    samepos=True
    def __init__(s,name): s.name=name
    def indirect(s,ex,st,spec,fr,I,fp,args,done): return "none"
    def setup(s,ex,st,spec):
        conn=ex.region("arg.connection",CONN,bv(SIZE,64)); spec.conn=conn
        if s.name in TS:
            ex.write(st,CONN,("f",24,64),conn,None,ex.fobj(s.name))
        spec.cur=s; ex.safety=("C09",)
        s.presetup(ex,st,spec)
        spec.assume_inv(ex,st)
        pre=Snap(st); st.notes["pre"]=pre; spec.pre0=pre; s.pre=pre
        w=W(ex,pre); c=CV(ex,pre,conn)
        ex.register(st,E,c.ent); ex.register(st,T,c.tab); ex.register(st,T,w.tab(c.ent)); ex.register(st,"B",w.block(c.ent))
        for cnd in s.assumed(c,w): ex.assume(st,cnd)
        st.notes["frames"]=()
        def post(ex,st,ret):
            if st.notes.get("opaque")==id(st.mem.get(CONN)):
                spec.prove_inv(ex,st,f"at exit of {s.name}"); return
            s.checks(ex,st,spec,ret)
        return [Ptr(conn)],post
    def presetup(s,ex,st,spec): pass
    def assumed(s,c,w):
        out=[c.ltype==2,derived(c,w)]+[x[2] for x in general(c,w)+(TS[s.name](c,w) if s.name in TS else [])]
        if s.name in WRITEPHASE: out+=[c.out==NULL,c.free==NULL]
        return out
    def views(s,ex,st,spec): return CV(ex,s.pre,spec.conn),CV(ex,st,spec.conn),W(ex,s.pre),W(ex,st)
    def finished(s,ex,st,spec): s.checks(ex,st,spec,None,True)
    def checks(s,ex,st,spec,ret,mid=False):
        s.ex=ex; s.fmt=None
        c0,c1,w0,w1=s.views(ex,st,spec); P=f"at exit of {s.name}"; ob=lambda cnd,oid,desc,props: ex.oblige(st,cnd,oid,f"{s.name}: {desc}",tuple(props.split()),assume=False)
        for e in(c0.ent,c1.ent): ex.register(st,E,e); ex.register(st,T,w1.tab(e))
        for t in(c0.tab,c1.tab): ex.register(st,T,t)
        closing=NO if ret is None else simplify(ret==0)
        hn=spec.handler_name(ex,c1)
        for nm,pp,cnd in general(c1,w1): ob(cnd,nm,nm+" at exit",pp)
        if not is_true(closing):
            if hn not in TS: ob(closing,"known-handler","the next step of the connection is known","C09 C12 C11")
            elif not mid:
                for nm,pp,cnd in TS[hn](c1,w1): ob(Or(closing,cnd),"next:"+nm,f"{nm} when {hn} is next",pp)
        # uses are accounted exactly
        pre=s.pre
        def two(name,props,sorts,f): spec.prove(ex,st,(name,tuple(props.split()),sorts,f),P,pre)
        two("holders-entry","C09",(E,),lambda w0,w,e:w.eh(e)==w0.eh(e)+c1.ownE(e)-c0.ownE(e))
        two("holders-table","C09",(T,),lambda w0,w,t:w.th(t)==w0.th(t)+c1.ownT(t)-c0.ownT(t))
        two("writer-stays","C07",(E,),lambda w0,w,e:And(Implies(And(w0.al(e),w.al(e),w0.writing(e)),Or(And(c0.isw,e==c0.ent,Or(Not(w.writing(e)),And(c1.isw,e==c1.ent))),And(w.writing(e),Not(And(c0.isw,e==c0.ent))))),
            Implies(And(w.al(e),w.writing(e),Not(And(w0.al(e),w0.writing(e)))),And(c1.isw,e==c1.ent))))
        for o in st.notes.get("mine",()):
            ke,kt=w1.kE(o),w1.kT(o); ex.register(st,E,ke); ex.register(st,T,kt)
            ob(Or(Not(w1.al(o)),o==c1.free,And(ke!=NULL,w1.al(ke),w1.key(ke)==o),And(kt!=NULL,w1.al(kt),w1.tkey(kt)==o)),"no-leak","memory allocated in this step is owned or released","C09")
        spec.prove_inv(ex,st,P)
        over=s.name=="http_respond_contentbody" and bool(s.calls(st,"cache_destroy"))
        if s.samereq and not mid and not over:
            ob(Or(closing,And(c1.method==c0.method,c1.raw==c0.raw,*([c1.isw==c0.isw] if s.name!="http_cache_handle_request_body" else []))),"same-request","the request being processed stays the same","C01 C02 C09 C16")
            if s.samepos: ob(Or(closing,Not(c0.key),And(c1.pos==c0.pos,c1.end==c0.end,c1.fd==c0.fd)),"same-position","position and file of the body stay the same","C01")
        if not mid: s.output(ex,st,spec,c0,c1,w0,w1,hn,closing,ob)
        f=getattr(s,"h_"+s.name,None)
        if f: f(ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid)
    # ----- pending output
    def output(s,ex,st,spec,c0,c1,w0,w1,hn,closing,ob):
        o0,o1=c0.out,c1.out; s.text=None
        if o1.eq(o0):
            ob(Or(closing,o1==NULL,And(c1.outlen==c0.outlen,c1.free==c0.free)),"output-kept","pending output is kept as it was","C12"); return
        p=ex.frm(o1)
        if p.obj.eq(NULL): ob(Or(closing,c1.free==NULL,c1.free==c0.free),"output-kept","no owned output is left behind","C12 C09"); return
        b=spec.cstr(ex,p)
        if b is not None:
            s.text=b
            ob(Or(closing,c1.outlen==len(b)),"exact-length","the length of the pending output is the length of its text","C12")
            ob(Or(closing,c1.free==NULL),"constant-output","a constant text is not released","C12 C09")
            if hn in("http_respond_writeonly","http_handle_eolwritetoend"): ob(Or(closing,BoolVal(complete(b))),"well-formed","the response announces the length of the body that follows","C12")
            elif hn in("http_respond_expires","http_respond_listingentries"): ob(Or(closing,BoolVal(headlines(b))),"well-formed","the response starts with a status line and header lines","C12")
            return
        ob(Or(closing,And(c1.free==o1,w1.al(o1),c1.outlen>=0,UGE(alen(o1),ZeroExt(32,c1.outlen)))),"owned-output","pending output is an allocated text that is released after it was sent","C12 C09")
        if not s.content(ex,st,spec,c0,c1,w0,w1,hn,closing,ob): ob(closing,"known-output","the pending output is a known text","C12")
    def bytes_of(s,ex,st,spec,c1,parts,ob,props):
        """the pending output is exactly the concatenation of parts: (length32, byte function)"""
        tot=bv(0,32)
        for n,f in parts: tot=tot+n
        ob(c1.outlen==tot,"output-length","the output has the length of its text",props)
        j=ex.fresh("sk.out",B64); got=ex.byteread(Snap(st),Ptr(c1.out),j); want=bv(0,8); lo=bv(0,64); conds=[]
        for n,f in parts:
            n64=ZeroExt(32,n); conds.append((And(ULE(lo,j),ULT(j-lo,n64)),f(j-lo))); lo=lo+n64
        ob(And(*[Implies(a,got==b) for a,b in conds]),"output-bytes","the output is byte for byte its text",props)
    def textpart(s,ex,ev): return (ev[4],lambda j:ex.byteread(ev[5],ev[1],j))
    def content(s,ex,st,spec,c0,c1,w0,w1,hn,closing,ob):
        tx=[e for e in st.events if e[0]=="text"]
        if s.name=="http_respond_stats": return s.statstext(ex,st,spec,c0,c1,w0,w1,tx,ob)
        if s.name=="http_respond_listing": return True
        if len(tx)!=1 or tx[0][2] is None: return False
        ev=tx[0]; s.fmt=ev[2]; s.farg=ev[3]
        ob(BoolVal(re.fullmatch(rb"[A-Za-z-]+: %[a-z0-9]+\r\n",ev[2]) is not None),"well-formed","the text is one header line","C12")
        s.bytes_of(ex,st,spec,c1,[s.textpart(ex,ev)],ob,"C12 C15 C06" )
        return True
    def header(s,ob,name,val,props):
        """the header line written is name: val"""
        f=getattr(s,"fmt",None)
        if f is None: ob(BoolVal(False),"announced",f"{name.decode()} is announced",props); return
        a=s.farg[0]
        if a.size()==32 and val.size()==32:
            s.ex.res.assumptions.add("a key set has fewer than 2^31 entries (printed with %d)"); ob(And(BoolVal(f.split(b":")[0].lower()==name),a==val),"announced",f"{name.decode()} announces the right number",props); return
        if a.size()>val.size(): val=ZeroExt(a.size()-val.size(),val)
        a=SignExt(64-a.size(),a) if b"u" not in f.split(b":")[1] and a.size()<64 else ZeroExt(64-a.size(),a) if a.size()<64 else a
        val=ZeroExt(64-val.size(),val) if val.size()<64 else val
        ob(And(BoolVal(f.split(b":")[0].lower()==name),a==val),"announced",f"{name.decode()} announces the right number",props)
    def statstext(s,ex,st,spec,c0,c1,w0,w1,tx,ob):
        hd=[e for e in tx if e[2] is not None and b"Content-Length: %d" in e[2]]; body=[e for e in tx if e not in hd]
        if len(hd)!=1 or not body: return False
        hd=hd[0]; m=re.fullmatch(rb"HTTP/1\.[01] 200 [^\r\n]*\r\n(?:[^\r\n:]+:[^\r\n%]*\r\n)*Content-Length: %d\r\n(?:[^\r\n:]+:[^\r\n%]*\r\n)*\r\n",hd[2])
        ob(BoolVal(m is not None),"well-formed","the response is a status line, header lines and a blank line","C12")
        n=hd[3][0]; tot=bv(0,32); chain=[]; at=body[0][1].total(); base=body[0][1]
        for e in body: chain.append(And(BoolVal(e[1].obj.eq(base.obj)),e[1].total()==at)); tot=simplify(tot+e[4]); at=simplify(at+ex.wide.get(tid(e[4]),ZeroExt(32,e[4])))
        ob(And(*chain),"output-bytes","the lines of the body follow each other","C12")
        ob(n==tot,"announced","the announced length is the length of the body","C12")
        v=body[-1][5]
        s.bytes_of(ex,st,spec,c1,[s.textpart(ex,hd),(tot,lambda j:ex.byteread(v,base,j))],ob,"C12")
        return True
    # ----- what the calls into the storage layer are given
    def at_call(s,ex,st,spec,K,args,where):
        f=getattr(s,"at_"+K.name,None)
        if f: f(ex,st,spec,K,args,lambda cnd,oid,desc,props:ex.oblige(st,cnd,oid,f"{desc} (call of {K.name} at {where})",tuple(props.split()),assume=False))
    def after_call(s,ex,st,spec,K,args,r):
        st.notes=dict(st.notes); st.notes["calls"]=st.notes.get("calls",())+((K.name,tuple(args),r),)
    def calls(s,st,*names): return [x for x in st.notes.get("calls",()) if x[0] in names]
    def at_db_entry_handle_delete(s,ex,st,spec,K,args,ob):
        c=CV(ex,st,spec.conn); e=args[0].obj
        ok=[And(e==r,e!=NULL,c.m(PURGE),c.tbl) for n,a,r in s.calls(st,"db_entry_get_delete")]
        if s.name=="cache_destroy": ok.append(And(c.isw,c.ent==e))
        else: ok.append(And(c.hasE,c.ent==e,c.m(DELETE),Not(c.isw)))
        ob(Or(*ok),"delete-named","only the value named by a delete, or the unfinished upload of a closing connection, is deleted","C16 C07 C08")
    def at_db_table_handle_delete(s,ex,st,spec,K,args,ob):
        c=CV(ex,st,spec.conn); ob(And(c.hasT,c.tab==args[0].obj,c.m(DELETE)),"delete-named","only the table named by a delete is deleted","C16")
    def at_db_complete_writing(s,ex,st,spec,K,args,ob):
        c=CV(ex,st,spec.conn); ob(And(c.isw,c.ent==args[0].obj,c.pos==c.end),"complete-upload","an upload is completed by its own connection when its body has been stored to the end","C07 C01")
    def at_db_target_write_allocate(s,ex,st,spec,K,args,ob):
        c=CV(ex,st,spec.conn); e=K.ent(W(ex,st),args)
        ob(And(c.isw,c.ent==e),"own-upload","space is allocated for the value being uploaded","C07 C01")
        nums=[ev for ev in st.events if ev[0]=="num"]
        ob(BoolVal(bool(nums)) if not nums else And(nums[-1][3],args[1]==nums[-1][4]),"declared-length","the length is the number given in Content-Length","C01 C04 C11")
    def at_cache_destroy(s,ex,st,spec,K,args,ob):
        if s.name=="http_respond_contentbody":
            c=CV(ex,st,spec.conn); ob(Implies(c.hasE,c.pos==c.end),"body-sent","the connection is reset only after the whole body was sent","C01 C12")
    def name_bytes(s,ex,st,spec,key,n,start,ob,what,stops):
        """key[0..n) are the received bytes from position start, none of them a delimiter"""
        c0=CV(ex,s.pre,spec.conn); j=ex.fresh("sk.name",B64); q=simplify(start+Extract(15,0,j)); ex.register(st,"upos",q)
        k=ex.byteread(Snap(st),Ptr(key.obj,0),j); x=c0.at(q)
        ob(Implies(ULT(j,n),k==x),"name-bytes",f"{what} is byte for byte what was received","C02 C16")
        ob(Implies(ULT(j,n),And(*[x!=z for z in stops])),"name-ends",f"{what} ends at the first delimiter","C02 C16 C11")
    def at_entry(s,ex,st,spec,K,args,ob):
        c=CV(ex,st,spec.conn); c0=CV(ex,s.pre,spec.conn); t,key,n=args[0].obj,args[1],args[2]
        ob(And(c.tab==t,c0.tbl if s.name=="http_cache_handle_url" else c.hasT),"named-table","the key is looked up in the table of the request","C02 C16")
        if s.name=="http_cache_handle_headers_extract":
            ob(And(BoolVal(K.name=="db_entry_get_delete"),c.m(PURGE)),"method","an X-Delete header only deletes","C16 C07")
            s.piece(ex,st,spec,n,ob,"X-Delete"); s.name_bytes(ex,st,spec,key,n,c.rp,ob,"the key to delete",b"\r\n"); return
        want=dict(db_entry_get_read=c.onebit(GET,HEAD),db_entry_get_write=c.onebit(PUT),db_entry_get_delete=c.onebit(DELETE))[K.name]
        ob(want,"method","the request does what its method says","C02 C07 C16 C01")
        s.name_bytes(ex,st,spec,key,n,c0.rp,ob,"the key",b" ")
        ob(And(ULT(n,u64(c0.rem)),c0.at(c0.rp+Extract(15,0,n))==32),"name-ends","the key ends at the first delimiter","C02 C16 C11")
    at_db_entry_get_read=at_db_entry_get_write=at_db_entry_get_delete=at_entry
    def at_table(s,ex,st,spec,K,args,ob):
        c0=CV(ex,s.pre,spec.conn); key,n=args[0],SignExt(32,args[1])
        s.name_bytes(ex,st,spec,key,n,c0.rp+1,ob,"the table name",b"/ ")
        q=c0.rp+1+Extract(15,0,n); x=c0.at(q)
        ob(And(n>=0,ULT(n+1,u64(c0.rem)),c0.at(c0.rp)==47,Or(x==47,x==32)),"name-ends","the table name starts after the first slash and ends at the first delimiter","C02 C16 C11")
    at_db_table_get_read=at_db_table_get_write=at_table
    def piece(s,ex,st,spec,n,ob,what):
        """[read position, read position+n) is the value of the header: leading blanks skipped, up to the line end"""
        c=CV(ex,st,spec.conn); c0=CV(ex,s.pre,spec.conn); n64=u64(n); q=simplify(c.rp+Extract(15,0,n64))
        j=ex.fresh("sk.piece",B16); i=ex.fresh("sk.lead",B16); ex.register(st,"upos",c.rp+j); ex.register(st,"upos",c0.rp+i); ex.register(st,"upos",q)
        ob(And(ULT(n64,u64(c.rem)),crlf(c.at(q)),Implies(ULT(j,Extract(15,0,n64)),nocrlf(c.at(c.rp+j))),Implies(ULT(i,c.rp-c0.rp),c0.at(c0.rp+i)==32)),"whole-value",f"the {what} value is the whole rest of the line","C11 C16 C06 C01")
    def entry_store(s,ex,st,spec,fr,I,p,key,v):
        ob=lambda cnd,oid,desc,props: ex.oblige(st,cnd,oid,f"store at {spec.where(fr,I)}: {desc}",tuple(props.split()),assume=False)
        c=CV(ex,st,spec.conn); w=W(ex,st)
        if key==("f",40,64):
            nums=[ev for ev in st.events if ev[0]=="num"]; x=SignExt(32,nums[-1][4])+w.now() if nums else v
            ob(And(c.isw,c.ent==p.obj,BoolVal(bool(nums)),*([nums[-1][3],If(nums[-1][4]==0,v==0,v==x)] if nums else [])),"expiry","the expiry time of the value being uploaded becomes now plus the number given in X-Ttl","C06")
        elif key==("f",24,16):
            if s.name!="cache_destroy": ob(And(c.isw,c.ent==p.obj),"entry-store","only the value being uploaded is changed","C07 C02 C16")
        else: ob(BoolVal(False),"entry-store","values are changed by the storage layer only","C01 C02 C03 C04 C08")
    # ----- particular handlers
    def h_http_cache_handle_method(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        if hn=="http_cache_handle_url":
            alts=[]
            for bit,names in((GET,(b"GET",)),(PUT,(b"PUT",)),(HEAD,(b"HEAD",)),(DELETE,(b"DELETE",)),(PURGE,(b"BULK",b"PURGE")),(ADMIN,(b"ADMIN",))):
                for nm in names:
                    m=len(nm)+1; b=c1.rp-m; i=ex.fresh("sk.lead",B16); ex.register(st,"upos",c0.rp+i)
                    alts.append(And(c1.method==bit,UGE(c1.rp-c0.rp,bv(m,16)),*[c0.at(b+j)==x for j,x in enumerate(nm+b" ")],Implies(ULT(i,b-c0.rp),crlf(c0.at(c0.rp+i)))))
            ob(Or(closing,*alts),"method-named","the method is the word received before the first blank, and exactly it is consumed","C11 C02 C16")
    def h_http_cache_handle_url(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        for n,a,r in s.calls(st,"db_table_get_read","db_table_get_write"):
            if hn in("http_cache_handle_url","http_cache_handle_headers"): ob(Or(closing,c1.rp-c0.rp==Extract(15,0,a[1])+2),"consumed-name","exactly the table name and its delimiters are consumed","C11 C02")
        for n,a,r in s.calls(st,"db_entry_get_read","db_entry_get_write","db_entry_get_delete"):
            ob(Or(closing,c1.rp-c0.rp==Extract(15,0,a[2])+1),"consumed-name","exactly the key and its delimiter are consumed","C11 C02")
            ob(Or(closing,And(c1.key,Not(c1.tbl))),"key-level","the request is for that key","C02")
        ob(Or(closing,(c1.method&bv(0x3f0,16))==(c0.method&bv(0x3f0,16))),"same-method","the method stays what it was","C02 C16 C07")
    def h_http_cache_handle_headers(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        lv=levels(c0)
        canon={1:b"Content-Length",2:b"X-Ttl",3:b"X-Limit",4:b"X-Start",5:b"X-Delete"}
        pref=lambda v:And(UGE(c0.rem,bv(len(v)+1,16)),*[c0.at(c0.rp+j)==x for j,x in enumerate(v+b":")])
        prop={1:"C01 C04 C11",2:"C06",3:"C15",4:"C15",5:"C16"}
        if hn=="http_cache_handle_headers_extract":
            alts=[]
            for code,low in HDR.items():
                v=canon[code]
                alts.append(And(lv[code],c1.state==code,c1.rp-c0.rp==len(v)+1,ULE(bv(len(v)+1,16),c0.rem),*[Or(c0.at(c0.rp+j)==x,c0.at(c0.rp+j)==y) for j,(x,y) in enumerate(zip(v+b":",low+b":"))]))
            ob(Or(closing,*alts),"header-named","the header is recognised by its whole name, and exactly the name is consumed","C11 C06 C01 C16 C15")
        else:
            for code,low in HDR.items():
                for v in((canon[code],) if code==1 else (canon[code],low)):
                    ob(Or(closing,Not(And(lv[code],pref(v)))),"header-used",f"a {v.decode()} header is not skipped",prop[code])
        if hn=="http_respond_writeonly" and s.text is not None:
            k=status(s.text); e,t=c0.ent,c0.tab
            gone=Or(And(c0.key,c0.m(DELETE),e!=NULL,Not(w1.D(e))),And(c0.tbl,c0.m(DELETE),t!=NULL,Not(And(w1.al(t),Not(w1.tdel(t))))),And(c0.tbl,c0.m(PURGE)))
            none=Or(And(c0.key,Not(c0.m(PUT)),e==NULL),And(c0.tbl,t==NULL))
            big=c1.rem==BS
            if k==200: ob(Or(closing,gone),"honest-answer","success is reported only when the delete has been done","C16")
            elif k==404: ob(Or(closing,none),"honest-answer","nothing found is reported only when nothing was found","C02 C16 C06 C07")
            else: ob(Or(closing,big,And(c0.key,c0.m(PUT),e!=NULL,w0.dlen(e)==0)),"honest-answer","an error is reported only for a missing length or a request that is too large","C01 C16 C02")
        if hn in("http_respond_expires","http_respond_listingentries") and s.text is not None: ob(Or(closing,BoolVal(status(s.text)==200)),"honest-answer","a value that was found is announced","C01 C02")
    def h_http_cache_handle_headers_extract(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        nums=[ev for ev in st.events if ev[0]=="num"]
        put=And(c0.key,c0.m(PUT)); e=c0.ent
        for ev in nums:
            cc=CV(ex,s.pre,spec.conn)
        if hn=="http_cache_handle_headers":
            j=ex.fresh("sk.line",B16); ex.register(st,"upos",c0.rp+j); ex.register(st,"upos",c1.rp-1)
            ob(Or(closing,And(c1.rp!=c0.rp,crlf(c0.at(c1.rp-1)),Implies(ULT(j,c1.rp-1-c0.rp),nocrlf(c0.at(c0.rp+j))))),"whole-line","exactly the rest of the line is consumed","C11")
            ok=nums[-1][3] if nums else NO; v=nums[-1][4] if nums else bv(0,32); v64=SignExt(32,v)
            al=[x for x in s.calls(st,"db_target_write_allocate")]
            ob(Or(closing,Not(And(put,c0.state==1)),And(ok,BoolVal(True) if al else And(e==NULL,c1.pos==0,c1.end==v64))),"length-used","the declared length is used","C01 C04 C11")
            ob(Or(closing,Not(And(put,c0.state==2,e!=NULL)),And(ok,If(v==0,Or(w1.expires(e)==w0.expires(e),w1.expires(e)==0),w1.expires(e)==v64+w0.now()))),"expiry-set","the value expires after the given number of seconds","C06")
            tg=And(c0.tbl,Not(c0.key),c0.m(GET))
            ob(Or(closing,Not(And(tg,c0.state==3)),And(ok,c1.limit==v)),"limit-used","the listing is limited to the given number","C15")
            ob(Or(closing,Not(And(tg,c0.state==4)),And(ok,c1.start==v)),"start-used","the listing starts at the given number","C15")
            gd=s.calls(st,"db_entry_get_delete")
            ob(Or(closing,Not(And(c0.tbl,c0.m(PURGE),c0.state==5,c0.tab!=NULL)),BoolVal(len(gd)==1)),"delete-done","the key named by X-Delete is looked up","C16")
            for n,a,r in gd:
                ex.register(st,E,r); ob(Or(r==NULL,Not(w1.D(r))),"delete-done","the value named by X-Delete is deleted","C16")
        ob(Or(closing,Not(And(c0.key,c0.state!=1)),And(c1.pos==c0.pos,c1.end==c0.end,c1.fd==c0.fd)),"same-position","position and file of the body stay the same","C01")
        ob(Or(closing,Not(c0.tbl),And(Or(c0.state==3,c1.limit==c0.limit),Or(c0.state==4,c1.start==c0.start))),"window-kept","the requested window is not changed otherwise","C15")
        if s.text is not None: ob(Or(closing,And(BoolVal(status(s.text)==400 and bool(nums)),Not(nums[-1][3]) if nums else NO)),"honest-answer","a header is refused only if it is not a number in range","C11 C01")
    def h_http_cache_handle_request_body(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        evs=[e for e in st.events if e[0] in("write","pwrite","lseek")]; ws=[e for e in evs if e[0]!="lseek"]
        used=c1.rp-c0.rp; adv=c1.pos-c0.pos; left=c0.end-c0.pos
        ob(And(c1.end==c0.end,c1.fd==c0.fd,ULE(c0.pos,c1.pos),ULE(c1.pos,c1.end)),"same-extent","the space of the value stays the same","C01 C03")
        ob(u64(used)==adv,"each-byte-once","the position moves by exactly the bytes taken from the input","C01")
        ob(BoolVal(len(ws)<=1),"each-byte-once","at most one write per step","C01")
        sq=[i for i,e in enumerate(evs) if e[0]=="lseek"]
        for i,e in enumerate(evs):
            if e[0]=="lseek": continue
            nm,a,r,sn=e; v=CV(ex,sn,spec.conn); q=ex.frm(a[1])
            inb=And(BoolVal(q.obj.eq(spec.conn)),((q.total()-RB)==(u64(c0.rp)&bv(BS-1,64))))
            ob(And(c0.isw,a[0]==c0.fd,inb,ULE(word(a[2],64),left)),"stored-bytes","the oldest unread bytes, and no more than belong to the value, are written to the value's file","C01 C03")
            if nm=="pwrite": ob(word(a[3],64)==c0.pos,"stored-place","they are written at the value's current position","C01 C03")
            else:
                pv=[x for x in evs[:i] if x[0]=="lseek"]
                ob(And(BoolVal(bool(pv)),*([pv[-1][1][0]==c0.fd,word(pv[-1][1][1],64)==c0.pos,pv[-1][1][2]==0,pv[-1][2]!=-1] if pv else [])),"stored-place","they are written at the value's current position","C01 C03")
            ob(adv==If(r>0,r,bv(0,64)),"each-byte-once","the position moves by exactly the bytes written","C01")
        if not ws: ob(Implies(c0.isw,adv==0),"each-byte-once","nothing is skipped","C01")
        cw=s.calls(st,"db_complete_writing")
        ob(Implies(And(c0.isw,Not(c1.isw)),BoolVal(len(cw)==1)),"upload-state","an upload ends by being completed","C07")
        if s.text is not None and status(s.text)==200: ob(Or(closing,And(c1.pos==c1.end,Not(c1.isw))),"honest-answer","success is reported only when the body has been stored to the end","C01 C07")
        if hn!="http_cache_handle_request_body" and s.text is not None and status(s.text)!=200:
            rr=[e[2]==-1 for e in evs]
            ob(Or(closing,*rr),"honest-answer","failure is reported only when storing failed","C01")
        if hn=="http_cache_handle_request_body" and not mid: ob(Or(closing,c1.pos!=c1.end),"finishes","an upload whose body is stored is completed","C07 C01")
    def h_http_respond_expires(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        x=w0.expires(c0.ent); s.header(ob,b"x-ttl",If(x==0,bv(0,64),x-w0.now()),"C06")
        ob(Or(closing,BoolVal(hn=="http_respond_contentlength")),"next-part","the length follows","C12 C01")
    def h_http_respond_contentlength(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        s.header(ob,b"content-length",ZeroExt(32,w0.dlen(c0.ent)),"C01 C12")
        ob(Or(closing,BoolVal(hn=="http_respond_responseend")),"next-part","the end of the headers follows","C12 C01")
    def h_http_respond_responseend(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        ob(Or(closing,BoolVal(s.text==b"\r\n")),"well-formed","the headers end with a blank line","C12")
        ob(Or(closing,If(c0.m(GET),BoolVal(hn=="http_respond_contentbody"),BoolVal(hn in("http_respond_reset_connection","http_respond_writeonly")))),"next-part","the body follows exactly for GET","C01 C12")
    def h_http_respond_contentbody(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        evs=[e for e in st.events if e[0]=="sendfile"]; left=c0.end-c0.pos
        ob(BoolVal(len(evs)<=1),"each-byte-once","at most one send per step","C01 C12")
        for nm,a,r,sn in evs:
            ob(And(a[0]==c0.sock,a[1]==c0.fd,a[-1]==c0.pos if a[-1] is not None else NO,ULE(word(a[3],64),left)),"sent-bytes","the value's bytes from the current position, and no more, are sent to the client","C01 C12")
            err=spec.errno(ex,st); again=And(r==-1,Or(err==11,err==4))
            if not mid and not s.calls(st,"cache_destroy"):
                ob(Implies(again,Not(closing)),"not-ready","a full socket does not close the connection","C12")
                ob(Or(closing,And(c1.pos==c0.pos+If(r>0,r,bv(0,64)),c1.end==c0.end,c1.fd==c0.fd,c1.ent==c0.ent)),"each-byte-once","the position moves by exactly the bytes sent","C01 C12")
        if not evs and not mid and not s.calls(st,"cache_destroy"): ob(Or(closing,c1.pos==c0.pos),"each-byte-once","the position moves by exactly the bytes sent","C01")
        if not mid: ob(Or(closing,BoolVal(hn=="http_respond_contentbody"),*[x for x in (BoolVal(bool(s.calls(st,"cache_destroy"))),)]),"next-part","the body is sent to its end","C01 C12")
    def h_http_respond_listingentries(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        h=w0.chs(c0.tab); s.header(ob,b"x-entries",If(h==NULL,bv(0,32),w0.hsize(h)),"C15")
    def h_http_respond_listing(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        h=w0.chs(c0.tab); nb=If(h==NULL,bv(0,32),w0.nb(h)); s0,l0=c0.start,c0.limit
        eff=If(UGE(s0,nb),bv(0,32),If(UGT(l0,nb-s0),nb-s0,l0))
        j=ex.fresh("sk.slot",B32)
        ex.push()
        try:
            st2=st.copy(); ex.register(st2,("HK",),(h,j))
            inside=And(ULE(s0,j),ULT(j-s0,eff))
            sent=hn=="http_respond_listing_separator"
            i=s0+c1.limit; ex.register(st2,("HK",),(h,i)); e=w0.M(h,w0.KEY(h,i)); ex.okind.setdefault(tid(e),E); ex.register(st2,E,e)
            o2=lambda cnd,oid,desc,props: ex.oblige(st2,cnd,oid,f"{s.name}: {desc}",tuple(props.split()),assume=False)
            if not sent: o2(Implies(And(inside,closing),Not(w0.EX(h,j))),"every-key","the listing ends only when no key of the window is left","C15")
            else:
                o2(Or(closing,And(ULT(c1.limit,eff),c1.start==s0,w0.EX(h,i))),"window","the key sent lies in the requested window","C15")
                o2(Or(closing,Implies(And(inside,UGT(j,i)),Not(w0.EX(h,j)))),"every-key","no key of the window is skipped","C15")
                n=w0.klen(e); k=ex.fresh("sk.kb",B64); kb=ex.read(w0.v,"raw",("a",0,8),w0.key(e),k,B8)
                o2(Or(closing,c1.outlen==ZeroExt(16,n) if n.size()==16 else c1.outlen==n),"key-complete","the key is sent with its whole length","C15")
                o2(Or(closing,Implies(ULT(k,ZeroExt(48,n)),ex.byteread(Snap(st2),Ptr(c1.out),k)==kb)),"key-complete","the key is sent unmodified","C15")
            if not sent: o2(closing,"window","the listing continues with the next key or ends","C15")
        finally: ex.pop()
    def h_http_respond_listing_separator(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        ob(Or(closing,And(c1.start==c0.start,c1.limit==c0.limit,BoolVal(s.text==b"\r\n" and hn=="http_respond_listing"))),"window-kept","between keys only a line end is sent","C15")
    def h_http_respond_listingtotal(s,ex,st,spec,c0,c1,w0,w1,hn,ret,closing,ob,mid):
        ob(Or(closing,And(c1.start==c0.start,c1.limit==c0.limit)),"window-kept","the requested window is not changed","C15")
class Free(Step):
    samereq=False; samepos=False
class ReqBody(Step):
    samepos=False
class DestroyStep(Step):
    def __init__(s): s.name="cache_destroy"
    def setup(s,ex,st,spec): raise Exception
ALLP=("C01","C02","C03","C04","C05","C06","C07","C08","C09","C11","C12","C14","C15","C16")
STEPS=[Free("http_cache_handle_method"),Free("http_cache_handle_url"),Step("http_cache_handle_httpversion"),Step("http_cache_handle_headers"),ReqBody("http_cache_handle_headers_extract"),
  ReqBody("http_cache_handle_request_body"),Step("http_cache_handle_eolstats"),Step("http_handle_eolwritetoend"),Step("http_respond_expires"),Step("http_respond_contentlength"),Step("http_respond_responseend"),
  ReqBody("http_respond_contentbody"),Free("http_respond_reset_connection"),Free("http_respond_writeonly"),Step("http_respond_stats"),Step("http_respond_listingentries"),Step("http_respond_listingtotal"),ReqBody("http_respond_listing"),Step("http_respond_listing_separator"),Step("http_respond_close_connection")]
COST=dict(http_cache_handle_url=9,http_cache_handle_headers_extract=8,http_cache_handle_headers=6,http_cache_handle_method=4); SHARDS=dict(http_cache_handle_url=3,http_cache_handle_headers_extract=4,http_cache_handle_headers=2)
def mk_step(step):
    def mk(): return HSpec(step)
    return mk
def target(step):
    t=Target(step.name,step.name,ALLP,lambda ex,st,spec:step.setup(ex,st,spec),budget=600); t.cost=COST.get(step.name,2); t.shards=SHARDS.get(step.name,1); return t
def targets():
    import copy
    out=[(mk_step(DestroyStep()),DESTROY.target())]
    for x in STEPS: x=copy.copy(x); out.append((mk_step(x),target(x)))
    return out

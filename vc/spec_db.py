"""Contracts of the storage layer (db.cpp): data-structure invariants over the heap, API contracts, khash contracts."""
from .specbase import *
from . import specbase
import re
E,T,N,H,HT="cache_entry","db_table","block_free_node","kh_entry_t","kh_table_t"
FL,VL=1<<24,1<<40
BLOCK=4096
PT={("g:db",1208):E,("g:db",1216):E,("g:db",1224):N,("g:db",1288):HT,(E,0):T,(E,16):"raw",(E,48):E,(E,56):E,(T,8):"raw",(T,24):H,(N,8):N}
Bool=z3.BoolSort()
DBG="g:db"

class W:
    """the storage state in one view (State or Snap)"""
    def __init__(s,ex,view): s.ex=ex; s.v=view; s.db=ex.globobj("db","db")
    def f(s,kind,o,off,sort): 
        if isinstance(o,Ptr): o=s.ex.toobj(o)
        s.ex.okind.setdefault(tid(o),kind); s.ex.keep.append(o)
        w=sort.size() if isinstance(sort,z3.BitVecSortRef) else 64
        return s.ex.read(s.v,kind,("f",off,w),o,None,sort)
    # entry
    def tab(s,e): return s.k(s.f(E,e,0,Obj),T)
    def k(s,o,kind): s.ex.okind.setdefault(tid(o),kind); return o
    def hash(s,e): return s.f(E,e,8,B32)
    def key(s,e): return s.k(s.f(E,e,16,Obj),"raw")
    def bits(s,e): return s.f(E,e,24,B16)
    def klen(s,e): return simplify(ZeroExt(2,Extract(13,0,s.bits(e))))
    def writing(s,e): return Extract(14,14,s.bits(e))==1
    def deleted(s,e): return Extract(15,15,s.bits(e))==1
    def refs(s,e): return s.f(E,e,26,B16)
    def dlen(s,e): return s.f(E,e,28,B32)
    def block(s,e): return s.f(E,e,32,B32)
    def expires(s,e): return s.f(E,e,40,B64)
    def next(s,e): return s.k(s.f(E,e,48,Obj),E)
    def prev(s,e): return s.k(s.f(E,e,56,Obj),E)
    def it(s,e): return s.f(E,e,64,B16)
    def single(s,e): return UGT(s.dlen(e),bv(BLOCK,32))
    # table
    def thash(s,t): return s.f(T,t,0,B32)
    def tkey(s,t): return s.k(s.f(T,t,8,Obj),"raw")
    def tklen(s,t): return s.f(T,t,16,B16)
    def chs(s,t): return s.k(s.f(T,t,24,Obj),H)
    def tbits(s,t): return s.f(T,t,32,B16)
    def trefs(s,t): return simplify(ZeroExt(1,Extract(14,0,s.tbits(t))))
    def tdel(s,t): return Extract(15,15,s.tbits(t))==1
    # free node
    def num(s,n): return s.f(N,n,0,B32)
    def nnext(s,n): return s.k(s.f(N,n,8,Obj),N)
    # globals
    def g(s,off,sort):
        w=sort.size() if isinstance(sort,z3.BitVecSortRef) else 64
        return s.ex.read(s.v,DBG,("f",off,w),s.db,None,sort)
    def head(s): return s.k(s.g(1208,Obj),E)
    def tail(s): return s.k(s.g(1216,Obj),E)
    def free(s): return s.k(s.g(1224,Obj),N)
    def fdblk(s): return s.g(1200,B32)
    def exist(s): return s.g(1232,B32)
    def bfree(s): return s.g(1236,B32)
    def size(s): return s.g(1240,B64)
    def keys(s): return s.g(1248,B64)
    def tables(s): return s.k(s.g(1288,Obj),HT)
    # hash sets
    def nb(s,h): return s.f(s.hk(h),h,0,B32)
    def hsize(s,h): return s.f(s.hk(h),h,4,B32)
    def hk(s,h): return s.ex.okind.get(tid(h),H)
    def P(s,h,x): return s.ex.gget(s.v,"P",[h,x],Bool)
    def M(s,h,x): return s.k(s.ex.gget(s.v,"M",[h,x],Obj),T if s.hk(h)==HT else E)
    def KEY(s,h,k): return s.ex.gget(s.v,"KEY",[h,k],B32)
    def EX(s,h,k): return s.ex.gget(s.v,"EX",[h,k],Bool)
    def SLOT(s,h,x): return s.ex.gget(s.v,"SLOT",[h,x],B32)
    # ghosts
    def al(s,o): return s.ex.alive(s.v,o)
    def eh(s,e): return s.ex.gget(s.v,"eh",[e],B32)
    def th(s,t): return s.ex.gget(s.v,"th",[t],B32)
    def ts(s,e): return s.ex.gget(s.v,"ts",[e],B64)
    def clock(s): return s.ex.scget(s.v,"clock",B64)
    def ins(s,e): return s.ex.gget(s.v,"ins",[e],Bool)
    def dpt(s,n): return s.ex.gget(s.v,"dpt",[n],B64)
    def nat(s,d): return s.k(s.ex.gget(s.v,"nat",[d],Obj),N)
    def onl(s,n): return And(s.dpt(n)!=0,n!=NULL)
    def esum(s,t): return s.ex.gget(s.v,"esum",[t],B32)
    def kE(s,k): return s.k(s.ex.gget(s.v,"kE",[k],Obj),E)
    def kT(s,k): return s.k(s.ex.gget(s.v,"kT",[k],Obj),T)
    def sT(s,h): return s.k(s.ex.gget(s.v,"sT",[h],Obj),T)
    def bE(s,b): return s.k(s.ex.gget(s.v,"bE",[b],Obj),E)
    def bN(s,b): return s.k(s.ex.gget(s.v,"bN",[b],Obj),N)
    def tat(s,x): return s.k(s.ex.gget(s.v,"tat",[x],Obj),E)
    def gN(s): return s.ex.scget(s.v,"N",B64)
    def gS(s): return s.ex.scget(s.v,"S",B64)
    def bflen(s): return s.ex.scget(s.v,"bflen",B64)
    def now(s): return s.ex.read(s.v,"g:current_time",("f",0,64),s.ex.globobj("db","current_time"),None,B64)
    def fown(s,p): v=s.ex.gget(s.v,"fown",[p],Obj); s.ex.okind.setdefault(tid(v),E); return v
    def path(s,e): return fpath(FMT,[s.thash(s.tab(e)),s.hash(e),ZeroExt(16,s.it(e))])
    # derived
    def D(s,e): return And(s.al(e),Not(s.deleted(e)))
    def L(s,e): return And(s.D(e),Not(s.writing(e)))

MAXH=20000
FMT=b"%s%c%c/%x%x_%d"
def fpath(fmt,args):
    """the name a path format and its (integer) arguments denote; nothing but equality of equal arguments is known"""
    return z3.Function(f"path:{fmt!r}:{len(args)}",*[B32]*len(args),B64)(*args)
# clause groups: S sets and tables, K names, R references, B blocks, F free list, A accounting, L recency list
GROUP={}
for g,ns in dict(S="entry-in-set entry-table-live entry-table set-to-entry table-in-set table-set-live set-to-table tables-live table-not-empty",K="entry-key table-key",
    R="table-refs entry-refs deleted-entry-held held-entry-live held-table-live writer-holds value-length",B="block-of-entry block-kind small-in-block block-of-free-node block-accounted block-file-size",
    F="free-list free-head",A="reported-keys reported-size",P="file-owner",L="lru-ends lru-links lru-next lru-time lru-oldest lru-order").items():
    for n_ in ns.split(): GROUP[n_]=g
# groups assumed when only some properties are checked, and groups used when one clause is proved
NEED=dict(C11="SR",C12="SR",C15="SKR",C02="SKR",C03="SRBF",C04="SRA",C05="SRL",C06="SRL",C07="SRBL",C08="SRBFP",C09="SKRFL",C14="SRBFP",C16="SKRL",C19="SRLA",C01="SRBF",C13="SRA")
USEDBY=dict(P="SRP",S="SR",K="SKR",R="SR",B="SRBF",F="FB",A="SRA",L="L")
FRAMEUSE={"frame-recency":"L","clock":""}
def inv_clauses():
    """(name, properties, variable sorts, formula)"""
    C=[]
    def c(name,props,sorts):
        def d(f): C.append((name,tuple(props.split()),sorts,f)); return f
        return d
    @c("entry-in-set","C09 C16 C02",(E,))
    def _(w,e): h=w.chs(w.tab(e)); return Implies(w.D(e),And(w.tab(e)!=NULL,w.al(w.tab(e)),h!=NULL,w.al(h),w.P(h,w.hash(e)),w.M(h,w.hash(e))==e,w.ins(e)))
    @c("entry-table-live","C09 C16",(E,))
    def _(w,e): return Implies(w.D(e),Not(w.tdel(w.tab(e))))
    @c("entry-table","C09",(E,))
    def _(w,e): return Implies(w.al(e),And(w.tab(e)!=NULL,w.al(w.tab(e))))
    @c("entry-key","C09",(E,))
    def _(w,e): return Implies(w.al(e),And(w.key(e)!=NULL,w.al(w.key(e)),w.kE(w.key(e))==e,w.kT(w.key(e))==NULL,UGE(alen(w.key(e)),ZeroExt(48,w.klen(e)))))
    @c("set-to-entry","C09 C02 C16",(("HX",H),))
    def _(w,hx): h,x=hx; e=w.M(h,x); return Implies(And(w.al(h),w.P(h,x)),And(w.D(e),w.hash(e)==x,w.chs(w.tab(e))==h))
    @c("table-in-set","C09 C16 C02",(T,))
    def _(w,t): return Implies(And(w.al(t),Not(w.tdel(t))),And(w.P(w.tables(),w.thash(t)),w.M(w.tables(),w.thash(t))==t))
    @c("table-set-live","C09",(T,))
    def _(w,t): return Implies(w.al(t),If(w.tdel(t),w.chs(t)==NULL,And(w.chs(t)!=NULL,w.al(w.chs(t)),w.sT(w.chs(t))==t)))
    @c("table-key","C09",(T,))
    def _(w,t): return Implies(w.al(t),And(w.tkey(t)!=NULL,w.al(w.tkey(t)),w.kT(w.tkey(t))==t,w.kE(w.tkey(t))==NULL,UGE(alen(w.tkey(t)),ZeroExt(48,w.tklen(t)))))
    @c("set-to-table","C09 C02 C16",("X",))
    def _(w,x): t=w.M(w.tables(),x); return Implies(w.P(w.tables(),x),And(w.al(t),Not(w.tdel(t)),w.thash(t)==x))
    @c("tables-live","C09",())
    def _(w): return And(w.tables()!=NULL,w.al(w.tables()))
    @c("table-refs","C09",(T,))
    def _(w,t): 
        own=If(And(Not(w.tdel(t)),w.hsize(w.chs(t))!=0),bv(1,32),bv(0,32))
        return Implies(w.al(t),And(ZeroExt(16,w.trefs(t))==w.th(t)+w.esum(t)+own,w.trefs(t)!=0))
    @c("entry-refs","C09 C08",(E,))
    def _(w,e): return Implies(w.al(e),ZeroExt(16,w.refs(e))==w.eh(e))
    @c("deleted-entry-held","C09",(E,))
    def _(w,e): return Implies(And(w.al(e),w.deleted(e)),w.refs(e)!=0)
    @c("held-entry-live","C09 C08",(E,))
    def _(w,e): return Implies(w.eh(e)!=0,And(w.al(e),e!=NULL))
    @c("held-table-live","C09",(T,))
    def _(w,t): return Implies(Or(w.th(t)!=0,w.esum(t)!=0),And(w.al(t),t!=NULL))
    @c("table-not-empty","C09",(E,))
    def _(w,e): return Implies(And(w.al(e),Not(w.tdel(w.tab(e)))),w.hsize(w.chs(w.tab(e)))!=0)
    @c("writer-holds","C09 C07",(E,))
    def _(w,e): return Implies(And(w.al(e),w.writing(e)),w.eh(e)!=0)
    @c("value-length","C01 C04 C12",(E,))
    def _(w,e): return Implies(w.al(e),w.dlen(e)>=0)
    # blocks
    @c("block-of-entry","C03 C08",(E,))
    def _(w,e):
        b=w.block(e); n=w.bN(b)
        return Implies(And(w.al(e),b>=0),And(Not(w.single(e)),ULT(b,w.exist()),w.bE(b)==e,Not(And(w.onl(n),w.num(n)==b))))
    @c("block-kind","C03",(E,))
    def _(w,e): return Implies(w.al(e),Or(w.block(e)>=0,w.block(e)==-1,And(w.block(e)==-2,Or(w.writing(e),w.deleted(e)),w.dlen(e)==0)))
    @c("small-in-block","C03 C01 C14",(E,))
    def _(w,e): return Implies(And(w.al(e),w.block(e)==-1),w.single(e))
    @c("free-list","C03 C09",(N,))
    def _(w,n): 
        x=w.nnext(n)
        return Implies(w.onl(n),And(w.al(n),w.nat(w.dpt(n))==n,ULE(w.dpt(n),ZeroExt(32,w.bfree())),If(x==NULL,w.dpt(n)==1,And(w.onl(x),w.dpt(x)+1==w.dpt(n)))))
    @c("block-of-free-node","C03 C08",(N,))
    def _(w,n): b=w.num(n); e=w.bE(b); return Implies(w.onl(n),And(ULT(b,w.exist()),w.bN(b)==n,Not(And(w.al(e),w.block(e)==b))))
    @c("free-head","C03 C09",())
    def _(w): return And((w.free()==NULL)==(w.bfree()==0),Implies(w.free()!=NULL,And(w.onl(w.free()),w.dpt(w.free())==ZeroExt(32,w.bfree()))))
    @c("block-accounted","C03",("B",))
    def _(w,b): n,e=w.bN(b),w.bE(b); return Implies(ULT(b,w.exist()),Or(And(w.onl(n),w.num(n)==b),And(w.al(e),w.block(e)==b)))
    @c("block-file-size","C03",())
    def _(w): return And(w.fdblk()>=0,w.bflen()==ZeroExt(32,w.exist())*BLOCK,ULE(w.exist(),bv(2147483647,32)))
    # files
    @c("file-owner","C14 C08",(E,))
    def _(w,e): return Implies(And(w.D(e),w.single(e)),w.fown(w.path(e))==e)
    # accounting
    @c("reported-keys","C04",())
    def _(w): return w.keys()==w.gN()
    @c("reported-size","C04 C19",())
    def _(w): return w.size()==w.gS()
    # recency order
    @c("lru-ends","C05 C09 C07",())
    def _(w):
        h,t=w.head(),w.tail()
        return And((h==NULL)==(t==NULL),Implies(h!=NULL,And(w.L(h),w.prev(h)==NULL)),Implies(t!=NULL,And(w.L(t),w.next(t)==NULL)))
    @c("lru-links","C05 C09 C07",(E,))
    def _(w,e): p=w.prev(e); return Implies(w.L(e),If(p==NULL,w.head()==e,And(w.L(p),w.next(p)==e,ULT(w.ts(p),w.ts(e)))))
    @c("lru-next","C05 C09 C07",(E,))
    def _(w,e): n=w.next(e); return Implies(w.L(e),If(n==NULL,w.tail()==e,And(w.L(n),w.prev(n)==e,ULT(w.ts(e),w.ts(n)))))
    @c("lru-time","C05 C09 C07",(E,))
    def _(w,e): return Implies(w.L(e),And(ULE(w.ts(e),w.clock()),w.tat(w.ts(e))==e))
    @c("lru-oldest","C05 C19",(E,))
    def _(w,e): return Implies(w.L(e),And(w.head()!=NULL,ULE(w.ts(w.head()),w.ts(e))))
    @c("lru-order","C05 C19",(E,E))
    def _(w,e,f): return Implies(And(w.L(e),w.L(f),ULT(w.ts(e),w.ts(f))),And(w.next(e)!=NULL,ULE(w.ts(w.next(e)),w.ts(f))))
    return C
CL=inv_clauses()

class DBSpec(Spec):
    def __init__(s):
        super().__init__(); s.exclude=set(); s.blocks=True; s.trusted|={"khash get/put/delete/init/destroy contracts (bounded check of khash.h stands in, see DESIGN.md)"}
        s.views=[]; s.loopon=True
    # ---------- pools
    def reg(s,ex,st,kind,t,d=0): ex.register(st,kind,t,d)
    def views_of(s,st): return st.notes.get("views",())
    maxd=1
    def neighbors(s,ex,st,sort,t,depth):
        """the heap terms one step away, in the newest assumed view and in the current state"""
        if depth>=s.maxd: return
        vs=list(s.views_of(st))[-1:]+[st]; on=lambda g:s.on(ex,g)
        for v in vs:
            w=W(ex,v); d=depth+1
            if sort==E:
                if on("S") or on("R"):
                    tb=w.tab(t); s.reg(ex,st,T,tb,d)
                    if on("S"): ex.register(st,("HX",H),(w.chs(tb),w.hash(t)),d)
                if on("L"): ex.register(st,E,w.next(t),d); ex.register(st,E,w.prev(t),d)
                if on("B"): ex.register(st,"B",w.block(t),d)
            elif sort==T:
                if on("S"): ex.register(st,"X",w.thash(t),d); ex.register(st,"Hset",w.chs(t),d)
            elif sort==N:
                ex.register(st,N,w.nnext(t),d)
                if on("B"): ex.register(st,"B",w.num(t),d)
            elif sort=="B":
                if on("B"): ex.register(st,N,w.bN(t),d); ex.register(st,E,w.bE(t),d)
            elif sort==("HX",H):
                h,x=t; ex.register(st,E,w.M(h,x),d)
                if depth<=1: ex.register(st,("HK",),(h,w.SLOT(h,x)),d)
            elif sort=="X":
                ex.register(st,T,w.M(w.tables(),t),d)
                if depth==0: ex.register(st,("HK",),(w.tables(),w.SLOT(w.tables(),t)),d)
            elif sort==("HK",):
                h,k=t
                if w.hk(h)==HT: ex.register(st,"X",w.KEY(h,k),d)
                else: ex.register(st,("HX",H),(h,w.KEY(h,k)),d)
    def on(s,ex,g): return g in s.groups(ex) and ex.inscope(g)
    def groups(s,ex):
        if ex.want is None: return set("SKRBFALP")
        g=set()
        for p in ex.want: g|=set(NEED.get(p,"SKRBFALP"))
        return g
    peel_on=False
    def peel(s,ex,fr): return s.peel_on and fr.depth==0
    def skip_live(s,ex,p):
        k=ex.kind_of(p)
        return k in(H,HT) and p.off>=FL
    # ---------- loads and stores
    def on_load(s,ex,st,fr,I,p,kind,key,idx):
        if kind in(H,HT):
            if key==("f",16,64): return Ptr(p.obj,FL,None,(FL,1<<36))
            if key==("f",24,64): raise Unsupported("direct access to khash keys")
            if key==("f",32,64): return Ptr(p.obj,VL,None,(VL,1<<40))
            if key[0]=="a" and key[1]==FL: return s.flags(ex,st,fr,I,p,kind,idx)
            if key[0]=="a" and key[1]==VL:
                k=s.slotof(ex,idx); w=W(ex,st); h=p.obj
                s.slot_ok(ex,st,fr,I,h,k,True)
                v=w.M(h,w.KEY(h,k)); s.reg(ex,st,T if kind==HT else E,v)
                return ex.frm(v)
        return None
    def slotof(s,ex,idx):
        k=simplify(Extract(34,3,idx)); ex.keep.append(k); return k
    def slot_ok(s,ex,st,fr,I,h,k,exist):
        w=W(ex,st); ex.register(st,("HK",),(h,k))
        ex.live(st,Ptr(h),f"hash set access at {s.where(fr,I)}")
        c=ULT(k,w.nb(h))
        if exist: c=And(c,w.EX(h,k))
        ex.oblige(st,c,"hash-slot",f"hash set access at {s.where(fr,I)}: the slot exists"+(" and is occupied" if exist else ""),ex.safety)
    def flags(s,ex,st,fr,I,p,kind,idx):
        h=p.obj; w=W(ex,st); word=ex.fresh("flags",B32)
        wi=simplify(Extract(33,2,idx)); ks=s.find_k(wi)
        if ks is not None: ks=[ks]
        elif z3.is_bv_value(wi): ks=[bv(wi.as_long()*16+j,32) for j in range(16)]
        else: ks=[simplify(Concat(Extract(27,0,wi),bv(j,4))) for j in range(16)]
        ex.live(st,Ptr(h),f"hash set flags at {s.where(fr,I)}")
        ex.oblige(st,Or(*[ULT(k,w.nb(h)) for k in ks]),"hash-slot",f"hash set flags at {s.where(fr,I)}: the slot is inside the set",ex.safety)
        for k in ks:
            ex.register(st,("HK",),(h,k))
            ex.assume(st,((z3.LShR(word,ZeroExt(27,Concat(Extract(3,0,k),bv(0,1))))&3)==0)==w.EX(h,k))
        return word
    def find_k(s,t):
        todo=[t]; n=0
        while todo and n<50:
            x=todo.pop(); n+=1
            if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_EXTRACT:
                hi,lo=x.params()
                if (hi,lo)==(31,4) and x.arg(0).size()==32: return x.arg(0)
            todo+=list(x.children())
        return None
    def after_load(s,ex,st,fr,I,p,kind,key,idx,v):
        if v.sort()==Obj and key[0]=="f":
            k=PT.get((kind,key[1]))
            if k:
                ex.okind.setdefault(tid(v),k)
                if k in(E,T,N): ex.register(st,k,v)
                elif k==H: ex.register(st,"Hset",v)
    def on_store(s,ex,st,fr,I,p,kind,key,idx,v):
        w=W(ex,st)
        if kind in(H,HT) and key[0]=="a":
            if key[1]!=VL: raise Unsupported("direct store into a hash set")
            k=s.slotof(ex,idx); h=p.obj; s.slot_ok(ex,st,fr,I,h,k,True)
            ex.okind.setdefault(tid(v),T if kind==HT else E)
            if kind==H:
                one=If(w.ins(v),bv(0,64),bv(1,64))
                ex.scset(st,"N",w.gN()+one); ex.scset(st,"S",w.gS()+If(w.ins(v),bv(0,64),ZeroExt(32,w.dlen(v))))
                ex.gset(st,"ins",[v],BoolVal(True))
            ex.gset(st,"M",[h,w.KEY(h,k)],v)
            ex.register(st,T if kind==HT else E,v)
            return True
        if kind==E and key==("f",24,16):
            e=p.obj; old=w.bits(e)
            tr=And(Extract(15,15,old)==0,Extract(15,15,v)==1,w.ins(e)); tr=simplify(tr)
            if not is_false(tr):
                ex.scset(st,"N",simplify(w.gN()-If(tr,bv(1,64),bv(0,64)))); ex.scset(st,"S",simplify(w.gS()-If(tr,ZeroExt(32,w.dlen(e)),bv(0,64))))
        if kind==E and key==("f",28,32):
            e=p.obj
            cnt=simplify(And(w.ins(e),Not(w.deleted(e))))
            if not is_false(cnt):
                ex.scset(st,"S",simplify(w.gS()+If(cnt,ZeroExt(32,v)-ZeroExt(32,w.dlen(e)),bv(0,64))))
        if kind==E and key==("f",16,64): ex.gset(st,"kE",[v],p.obj)
        if kind==T and key==("f",8,64): ex.gset(st,"kT",[v],p.obj)
        if kind==T and key==("f",24,64): ex.okind.setdefault(tid(v),H); ex.gset(st,"sT",[v],p.obj)
        if kind==E and key==("f",32,32): ex.register(st,"B",v); ex.gset(st,"bE",[v],p.obj)
        if kind==N and key==("f",0,32): ex.register(st,"B",v); ex.gset(st,"bN",[v],p.obj)
        if kind==N and key==("f",8,64):
            m=v; ex.okind.setdefault(tid(m),N); d=simplify(If(m==NULL,bv(1,64),w.dpt(m)+1)); ex.keep.append(d)
            ex.register(st,N,m); ex.register(st,N,p.obj)
            ex.gset(st,"dpt",[p.obj],d); ex.gset(st,"nat",[d],p.obj)
        return None
    # ---------- allocation
    SZ={72:E,40:T,16:N}
    def c_malloc(s,ex,st,fr,I,a,done):
        n=simplify(word(a[0],64)); kind=s.SZ.get(n.as_long()) if z3.is_bv_value(n) else None
        o=ex.malloc(st,n,kind)
        if kind==E: ex.gset(st,"ins",[o],BoolVal(False)); ex.gset(st,"eh",[o],bv(0,32)); ex.register(st,E,o)
        if kind==T: ex.gset(st,"th",[o],bv(0,32)); ex.gset(st,"esum",[o],bv(0,32)); ex.register(st,T,o)
        if kind==N: ex.gset(st,"dpt",[o],bv(0,64)); ex.register(st,N,o)
        return done(st,Ptr(o))
    def c_free(s,ex,st,fr,I,a,done):
        p=ex.frm(a[0]); o=p.obj
        if o.eq(NULL): return done(st,None)
        def go(st2):
            k=ex.okind.get(tid(o)) or "raw"
            if ex.okind.get(tid(o)) is None: ex.set_kind(st2,o,"raw")
            ex.oblige(st2,And(ex.alive(st2,o),BoolVal(p.off==0 and p.idx is None)),"free",f"free at {s.where(fr,I)}: the object is allocated (not released twice)",ex.safety)
            if k in(E,T,N): ex.register(st2,k,o)
            ex.setalive(st2,o,False)
            if k==N: ex.gset(st2,"dpt",[o],bv(0,64))
            if k==E: s.freed_entry(ex,st2,fr,I,o)
            if k==T: s.freed_table(ex,st2,fr,I,o)
            return done(st2,None)
        isn=simplify(o==NULL)
        if is_false(isn) : return go(st)
        return [(o==NULL,lambda st2:done(st2,None)),(o!=NULL,go)]
    def freed_entry(s,ex,st,fr,I,o):
        w=W(ex,st)
        ex.oblige(st,And(w.eh(o)==0),"free-unheld",f"free at {s.where(fr,I)}: nobody still uses the entry",("C09","C08"))
        ex.oblige(st,Not(w.al(w.key(o))),"free-key",f"free at {s.where(fr,I)}: the key of the entry has been released",("C09",))
    def freed_table(s,ex,st,fr,I,o):
        w=W(ex,st)
        ex.oblige(st,And(w.th(o)==0,w.esum(o)==0),"free-unheld",f"free at {s.where(fr,I)}: nobody still uses the table",("C09","C08"))
        ex.oblige(st,And(Not(w.al(w.tkey(o))),Not(w.al(w.chs(o)))),"free-key",f"free at {s.where(fr,I)}: name and key set of the table have been released",("C09",))
    def c_strdup(s,ex,st,fr,I,a,done):
        o=ex.malloc(st,ex.fresh("strdup.len",B64),"raw"); return done(st,Ptr(o))
    # ---------- khash contracts
    def repfacts(s,ex,st):
        """representation facts of khash (established by the contracts below for every state they return in)"""
        v=Snap(st); w=W(ex,v)
        def hx(view,t):
            h,x=t; w=W(ex,view); k=w.SLOT(h,x)
            return Implies(w.P(h,x),And(ULT(k,w.nb(h)),w.EX(h,k),w.KEY(h,k)==x,w.hsize(h)!=0))
        def xx(view,x): w=W(ex,view); return hx(view,(w.tables(),x))
        def hk(view,t):
            h,k=t; w=W(ex,view)
            return Implies(And(ULT(k,w.nb(h)),w.EX(h,k)),And(w.P(h,w.KEY(h,k)),w.SLOT(h,w.KEY(h,k))==k))
        ex.assume_univ(st,Univ("rep-hx",("HX",H),hx,v,"S")); ex.assume_univ(st,Univ("rep-x","X",xx,v,"S")); ex.assume_univ(st,Univ("rep-hk",("HK",),hk,v,"S"))
    def kh_obj(s,ex,p,kind):
        p=ex.frm(p); ex.okind.setdefault(tid(p.obj),kind); return p.obj
    def kh_get(kind):
        def h_(s,ex,st,fr,I,a,done):
            h=s.kh_obj(ex,a[0],kind); x=a[1]; w=W(ex,st)
            ex.live(st,Ptr(h),f"hash lookup at {s.where(fr,I)}")
            if kind==HT: ex.register(st,"X",x)
            else: ex.register(st,("HX",H),(h,x))
            yes=w.P(h,x); k=w.SLOT(h,x); n=w.nb(h)
            ex.register(st,("HK",),(h,k))
            return [(yes,lambda st2:done(st2,k)),(Not(yes),lambda st2:done(st2,n))]
        return h_
    c_kh_get_entry=kh_get(H); c_kh_get_table=kh_get(HT)
    def kh_del(kind):
        def h_(s,ex,st,fr,I,a,done):
            h=s.kh_obj(ex,a[0],kind); k=a[1]; w=W(ex,st)
            ex.live(st,Ptr(h),f"hash removal at {s.where(fr,I)}")
            ex.register(st,("HK",),(h,k))
            n=w.nb(h)
            def rm(st2):
                w=W(ex,st2); x=w.KEY(h,k)
                if kind==HT: ex.register(st2,"X",x)
                else: ex.register(st2,("HX",H),(h,x))
                sz=w.hsize(h)
                ex.gset(st2,"P",[h,x],BoolVal(False)); ex.gset(st2,"EX",[h,k],BoolVal(False))
                ex.write(st2,kind,("f",4,32),h,None,sz-1)
                nw=W(ex,Snap(st2)); v=nw.v
                # an empty set holds nothing
                if kind==HT: ex.assume_univ(st2,Univ("size0","X",lambda vv,y:Implies(W(ex,vv).P(h,y),W(ex,vv).hsize(h)!=0),v))
                else: ex.assume_univ(st2,Univ("size0",("HX",H),lambda vv,t:Implies(W(ex,vv).P(*t),W(ex,vv).hsize(t[0])!=0),v))
                return done(st2,None)
            # a slot index outside the set is only allowed to be the end marker
            ex.oblige(st,ULE(k,n),"hash-slot",f"hash removal at {s.where(fr,I)}: slot inside the set",ex.safety)
            yes=And(ULT(k,n),w.EX(h,k))
            return [(yes,rm),(Not(yes),lambda st2:done(st2,None))]
        return h_
    c_kh_del_entry=kh_del(H); c_kh_del_table=kh_del(HT)
    def kh_put(kind):
        def h_(s,ex,st,fr,I,a,done):
            h=s.kh_obj(ex,a[0],kind); x=a[1]; w=W(ex,st)
            ex.live(st,Ptr(h),f"hash insertion at {s.where(fr,I)}")
            rp=ex.frm(a[2])
            ex.register(st,"X",x) if kind==HT else ex.register(st,("HX",H),(h,x))
            had=w.P(h,x)
            def old(st2):
                ex.store(st2,fr,FakeI(B32i,I.line),bv(0,32),rp)
                return done(st2,W(ex,st2).SLOT(h,x))
            def new(st2):
                sz=W(ex,st2).hsize(h)
                for g in("SLOT","KEY","EX"): ex.havoc(st2,"ghost:"+g,lambda args:ex.aeq(args[0],h))
                ex.gset(st2,"P",[h,x],BoolVal(True))
                ex.write(st2,kind,("f",4,32),h,None,sz+1); ex.write(st2,kind,("f",0,32),h,None,ex.fresh("nb",B32))
                ex.write(st2,kind,("f",8,32),h,None,ex.fresh("nocc",B32)); ex.write(st2,kind,("f",12,32),h,None,ex.fresh("ub",B32))
                ex.assume(st2,sz+1!=0)   # fewer than 2^32 values in a set
                ex.store(st2,fr,FakeI(B32i,I.line),bv(1,32),rp)
                s.repfacts(ex,st2); nw=W(ex,st2); k=nw.SLOT(h,x)
                ex.register(st2,("HK",),(h,k))
                return done(st2,k)
            return [(had,old),(Not(had),new)]
        return h_
    c_kh_put_entry=kh_put(H); c_kh_put_table=kh_put(HT)
    def kh_init(kind):
        def h_(s,ex,st,fr,I,a,done):
            h=ex.malloc(st,bv(40,64),kind)
            for off in(0,4,8,12): ex.write(st,kind,("f",off,32),h,None,bv(0,32))
            ex.havoc(st,"ghost:P",lambda args:ex.aeq(args[0],h))
            v=Snap(st)
            if kind==H: ex.assume_univ(st,Univ("fresh-set",("HX",H),lambda vv,t:Implies(t[0]==h,Not(W(ex,vv).P(*t))),v))
            else: ex.assume_univ(st,Univ("fresh-set","X",lambda vv,x:Not(W(ex,vv).P(h,x)),v))
            return done(st,Ptr(h))
        return h_
    c_kh_init_entry=kh_init(H); c_kh_init_table=kh_init(HT)
    def kh_destroy(kind):
        def h_(s,ex,st,fr,I,a,done):
            h=s.kh_obj(ex,a[0],kind)
            def go(st2):
                ex.oblige(st2,ex.alive(st2,h),"free",f"hash set destruction at {s.where(fr,I)}: the set is allocated",ex.safety)
                ex.setalive(st2,h,False); return done(st2,None)
            if is_false(simplify(h==NULL)): return go(st)
            return [(h==NULL,lambda st2:done(st2,None)),(h!=NULL,go)]
        return h_
    c_kh_destroy_entry=kh_destroy(H); c_kh_destroy_table=kh_destroy(HT)
    def c_MurmurHash3_x86_32(s,ex,st,fr,I,a,done):
        """a deterministic function of the bytes; nothing else is relied upon"""
        p=ex.frm(a[0]); n=a[1]; ex.rangecheck(st,fr,I,p,SignExt(32,n),"hash")
        d=st.notes.get("hashes",())
        v=ex.fresh("murmur",B32)
        st.notes=dict(st.notes); st.notes["hashes"]=d+((p,n,v),)
        ex.store(st,fr,FakeI(B32i,I.line),v,a[3])
        return done(st,None)
    # ---------- system calls
    def path_event(s,ex,st,fr,I,name,a): st.events=st.events+((name,tuple(a),s.where(fr,I)),)
    def cstr(s,ex,p):
        p=ex.frm(p); g=ex.gdef.get(tid(p.obj))
        if g is None or not g.const or g.init is None or p.idx is not None: return None
        if g.init[0]=="str": return g.init[2][p.off:].split(b"\0")[0]
        return b"" if g.init[0]=="zero" else None
    def path_of(s,ex,st,fr,I,p,what):
        """the file name last composed in that buffer; it has to lie in one of the fixed sub-directories"""
        p=ex.frm(p); ev=st.notes.get("paths",{}).get((tid(p.obj),p.off)); at=s.where(fr,I)
        ok=ev is not None and ev[0] is not None and re.fullmatch(rb"%s%c%c/(?:[^%/]|%[0-9]*[xdu])*",ev[0]) is not None
        ex.oblige(st,BoolVal(ok),"path-form",f"{what} at {at}: the name is the directory of the value files, two letters and numbers",("C14",))
        if not ok: return None
        fmt,args=ev; d=ex.frm(args[0]); w=W(ex,st)
        ex.oblige(st,BoolVal(d.obj.eq(w.db) and d.idx is None and d.off==s.path_single_off(ex)),"path-dir",f"{what} at {at}: the name starts with the directory of the value files",("C14",))
        for c in args[1:3]: ex.oblige(st,And(UGE(c,bv(65,32)),ULE(c,bv(90,32))),"path-letter",f"{what} at {at}: the sub-directory is one of A to Z",("C14",))
        return fpath(fmt,list(args[3:]))
    def path_single_off(s,ex): return 400
    def c_unlink(s,ex,st,fr,I,a,done):
        s.path_event(ex,st,fr,I,"unlink",a)
        if "P" in s.groups(ex):
            x=s.path_of(ex,st,fr,I,a[0],"removal of a file")
            if x is not None: ex.gset(st,"fown",[x],NULL)
        return done(st,ex.fresh("unlink",B32))
    def c_open(s,ex,st,fr,I,a,done):
        fd=ex.fresh("fd",B32); s.path_event(ex,st,fr,I,"open",list(a)+[fd])
        ex.assume(st,fd>=-1); ex.assume(st,Or(fd==-1,fd!=W(ex,st).fdblk()))
        if s.groups(ex)&set("PB"):
            x=s.path_of(ex,st,fr,I,a[0],"opening a file") if "P" in s.groups(ex) else None
            fl=simplify(a[1]); fl=fl.as_long() if z3.is_bv_value(fl) else None
            if fl is None: ex.oblige(st,BoolVal(False),"new-file",f"open at {s.where(fr,I)}: mode of the open is known",("C14",))
            elif fl&64:
                ex.oblige(st,BoolVal(bool(fl&128)),"new-file",f"open at {s.where(fr,I)}: a value's file is always newly created",("C14",))
                own=s.cur.ent(W(ex,st),s.curargs) if hasattr(s.cur,"ent") else NULL
                if x is not None:
                    w=W(ex,st); o=w.fown(x); ex.register(st,E,o)
                    if fl&128: ex.assume(st,Implies(fd>=0,Not(And(w.D(o),w.single(o),w.path(o)==x,o!=own))))
                    ex.res.assumptions.add("open(O_CREAT|O_EXCL) succeeds only when no file of that name exists; nothing but the server removes value files")
                    ex.gset(st,"fown",[x],If(fd>=0,own,o))
            st.notes=dict(st.notes); st.notes["opened"]=st.notes.get("opened",())+((x,fl,fd),)
        return done(st,fd)
    c_open64=c_open
    def c_ftruncate(s,ex,st,fr,I,a,done):
        w=W(ex,st); r=ex.fresh("ftruncate",B32)
        ex.assume(st,Or(r==0,r==-1))
        ex.res.assumptions.add("ftruncate on the block file succeeds")
        isb=a[0]==w.fdblk(); ex.assume(st,Implies(isb,r==0))
        ex.scset(st,"bflen",simplify(If(isb,a[1],w.bflen())))
        s.path_event(ex,st,fr,I,"ftruncate",a)
        return done(st,r)
    c_ftruncate64=c_ftruncate
    def c_close_fd(s,ex,st,fr,I,a,done): s.path_event(ex,st,fr,I,"close",a); return done(st,None)
    def c_snprintf(s,ex,st,fr,I,a,done):
        d=ex.frm(a[0]); n=word(a[1],64); r=ex.fresh("snprintf",B32)
        ex.rangecheck(st,fr,I,d,If(UGE(n,bv(1<<31,64)),bv(0,64),n),"snprintf")
        st.events=st.events+(("snprintf",tuple(a),s.where(fr,I)),)
        st.notes=dict(st.notes); pp=dict(st.notes.get("paths",{})); pp[(tid(d.obj),d.off)]=(s.cstr(ex,a[2]),tuple(a[3:])) if d.idx is None else (None,()); st.notes["paths"]=pp
        s.bufhavoc(ex,st,d)
        ex.assume(st,r>=0)
        return done(st,r)
    def bufhavoc(s,ex,st,d):
        k=ex.kind_of(d) or ex.set_kind(st,d.obj,"raw")
        o=d.obj
        ex.havoc(st,k,lambda key,oo:ex.aeq(oo,o) if key[0]=="a" else False)
    def after_havoc(s,ex,ctx,st):
        if any(k in(H,HT,"ghost:P","ghost:EX","ghost:KEY","ghost:SLOT","ghost:M") for k,_ in ctx.W): s.repfacts(ex,st)
        if any(k in(E,T,N,DBG) for k,_ in ctx.W): w=W(ex,st); ex.assume(st,And(ULT(w.clock(),bv(1<<60,64)),ULE(w.bfree(),bv(1<<31,32))))
    # ---------- loops: every invariant clause is a candidate
    def loop_candidates(s,ex,ctx,st):
        out=super().loop_candidates(ex,ctx,st)
        if not s.loopon or not any(k in(E,T,N,H,HT,DBG,"ghost:alive") for k,_ in ctx.W): 
            return out
        excl=st.notes.get("loopweak",())
        for cl in CL: 
            if s.active(ex,cl): out.append(s.clause_cand(cl))
        for fcl in st.notes.get("frames",()): out.append(s.clause_cand(fcl,pre=st.notes["pre"]))
        # live pointers of the frame stay live
        seen=set()
        for fr_ in st.frames[-1:]:
            for i,v in list(ctx.frenv.items()):
                if isinstance(v,Ptr) and v.off==0 and v.idx is None and ex.okind.get(tid(v.obj)) in(E,T) and tid(v.obj) not in seen:
                    seen.add(tid(v.obj)); o=v.obj; kd=ex.okind[tid(o)]
                    def alv(st,ph,k,o=o): return W(ex,st).al(o)
                    out.append(Cand(f"alive:{i}",alv))
                    if kd==T:
                        out.append(Cand(f"tdel:{i}",lambda st,ph,k,o=o: Not(W(ex,st).tdel(o))))
                        out.append(Cand(f"tset:{i}",lambda st,ph,k,o=o: And(W(ex,st).chs(o)==W(ex,ctx.entry).chs(o),W(ex,st).al(W(ex,st).chs(o)),W(ex,st).chs(o)!=NULL)))
                        out.append(Cand(f"trefs:{i}",lambda st,ph,k,o=o: W(ex,st).tbits(o)==W(ex,ctx.entry).tbits(o)))
                        def cleared(ex_,st_,check,o=o,ctx=ctx):
                            return s.cleared(ex_,st_,check,o,ctx)
        if any(k==DBG and key and key[1]==1296 for k,key in ctx.W):
            out.append(Cand("cursor",lambda st,ph,k: ULT(W(ex,st).g(1296,B32),W(ex,st).nb(W(ex,st).tables()))))
        if "P" in s.groups(ex) and hasattr(s.cur,"ent") and s.curargs:
            w0=W(ex,ctx.entry); own=s.cur.ent(w0,s.curargs)
            GROUP["file-owner\tent"]="P"
            out.append(s.clause_cand(("file-owner\tent",("mid",),(E,),lambda w,e:Implies(And(w.D(e),w.single(e),e!=own),w.fown(w.path(e))==e))))
        # a table that is being taken apart: marked deleted, its set still there
        if not hasattr(ctx,"mid"):
            w=W(ex,ctx.entry)
            ts=list({tid(v.obj):v.obj for v in ctx.frenv.values() if isinstance(v,Ptr) and v.off==0 and v.idx is None and ex.okind.get(tid(v.obj))==T}.values())
            ctx.mid=[cl for o in ts if not is_false(simplify(w.tdel(o))) and ex.check(Not(And(w.tdel(o),w.chs(o)!=NULL)))==z3.unsat for cl in s.mid_clauses(ex,o,ctx.entry)]
        for cl in ctx.mid: out.append(s.clause_cand(cl))
        # slots already passed by an increasing index are empty
        for I in ctx.phis:
            if I.ty.k=="int" and I.ty.w==32:
                for v in list({tid(v.obj):v for v in ctx.frenv.values() if isinstance(v,Ptr) and v.off==0 and v.idx is None and ex.okind.get(tid(v.obj))==T}.values()):
                    out.append(s.passed_cand(ctx,I,v.obj))
                    out.append(Cand(f"slot:{I.id}:{tid(v.obj)}",lambda st,ph,k,I=I,o=v.obj: ULE(ph[I.id],W(ex,st).nb(W(ex,st).chs(o)))))
        return out
    def mid_clauses(s,ex,o,entry):
        w0=W(ex,entry); own=w0.hsize(w0.chs(o)); n=str(tid(o)); C=[]
        def c(name,base,sorts,f):
            GROUP[name]=GROUP[base]; C.append((name,("mid",),sorts,f))
        c("entry-table-live\t"+n,"entry-table-live",(E,),lambda w,e:Implies(w.D(e),Or(Not(w.tdel(w.tab(e))),w.tab(e)==o)))
        c("table-in-set\t"+n,"table-in-set",(T,),lambda w,t:Implies(And(w.al(t),Or(t==o,Not(w.tdel(t)))),And(w.P(w.tables(),w.thash(t)),w.M(w.tables(),w.thash(t))==t)))
        c("table-set-live\t"+n,"table-set-live",(T,),lambda w,t:Implies(w.al(t),If(And(w.tdel(t),t!=o),w.chs(t)==NULL,And(w.chs(t)!=NULL,w.al(w.chs(t)),w.sT(w.chs(t))==t))))
        c("set-to-table\t"+n,"set-to-table",("X",),lambda w,x:(lambda t:Implies(w.P(w.tables(),x),And(w.al(t),Or(t==o,Not(w.tdel(t))),w.thash(t)==x)))(w.M(w.tables(),x)))
        def refs(k):
            def f(w,t):
                ow=If(And(Not(w.tdel(t)),w.hsize(w.chs(t))!=0),bv(1,32),bv(0,32))
                return Implies(w.al(t),And(ZeroExt(16,w.trefs(t))==w.th(t)+w.esum(t)+If(t==o,k,ow),w.trefs(t)!=0))
            return f
        c("table-refs\t"+n,"table-refs",(T,),refs(If(own!=0,bv(1,32),bv(0,32))))
        return C
    def passed_cand(s,ctx,I,t):
        c=Cand(f"passed:{I.id}:{tid(t)}",None)
        def holds(ex,st,phis,k):
            w=W(ex,st); j=ex.fresh("sk.slot",B32); h=w.chs(t)
            ex.push()
            try:
                ex.register(st,("HK",),(h,j))
                return ex.check(And(ULT(j,phis[I.id]),ULT(j,w.nb(h)),w.EX(h,j)))==z3.unsat
            finally: ex.pop()
        def assume(ex,st,phis,k):
            v=Snap(st); h=W(ex,v).chs(t); b=phis[I.id]
            ex.assume_univ(st,Univ("passed",("HK",),lambda vv,tt:Implies(And(tt[0]==h,ULT(tt[1],b)),Not(And(ULT(tt[1],W(ex,vv).nb(h)),W(ex,vv).EX(h,tt[1])))),v))
        c.holds2=holds; c.assume2=assume
        return c
    def clause_cand(s,cl,pre=None):
        name,props,sorts,f=cl
        c=Cand("inv:"+name,None)
        def holds(ex,st,phis,k):
            st=st.copy(); ex.push(); old=s.enter_scope(ex,cl)
            try: return ex.check(Not(s.skolem(ex,st,cl,pre)))==z3.unsat
            finally: ex.pop(); ex.scope,s.maxd=old
        def assume(ex,st,phis,k): s.assume_clause(ex,st,cl,Snap(st),pre)
        c.holds2=holds; c.assume2=assume
        return c
    # ---------- invariant: assume / prove
    def assume_clause(s,ex,st,cl,view,pre=None):
        name,props,sorts,f=cl
        def mk(vv,*a):
            k=("cl",id(f),id(vv),id(pre))+tuple(tuple(tid(y) for y in x) if isinstance(x,tuple) else tid(x) for x in a)
            return ex.cached(k,(f,vv,pre,a),lambda:f(W(ex,vv),*a) if pre is None else f(W(ex,pre),W(ex,vv),*a))
        g=GROUP.get(name)
        if not sorts: ex.assume(st,mk(view)); return
        if len(sorts)==1: ex.assume_univ(st,Univ(name,sorts[0],lambda vv,t:mk(vv,t),view,g)); return
        ex.assume_univ2(st,name,sorts,lambda vv,a,b:mk(vv,a,b),view,g)
    def active(s,ex,cl):
        """is this clause needed for the properties being checked"""
        if cl[0] in("lru-order","lru-oldest") and ex.want is not None and not(set(cl[1])&ex.want): return False
        return GROUP[cl[0]] in s.groups(ex)
    def assume_inv(s,ex,st,view=None):
        view=view or Snap(st)
        st.notes=dict(st.notes); st.notes["views"]=tuple(st.notes.get("views",()))+(view,)
        s.repfacts(ex,st)
        for cl in CL:
            if not s.active(ex,cl): continue
            s.assume_clause(ex,st,cl,view)
        def bounds(vv,e): w=W(ex,vv); return ULT(w.eh(e),bv(MAXH,32))
        ex.assume_univ(st,Univ("eh-bound",E,bounds,view,"R"))
        def esum(vv,e): w=W(ex,vv); return ULE(w.eh(e),w.esum(w.tab(e)))   # esum(t) is by definition the sum of eh(e) over the entries of t
        ex.assume_univ(st,Univ("esum-def",E,esum,view,"R"))
        ex.assume_univ(st,Univ("th-bound",T,lambda vv,t:ULT(W(ex,vv).th(t)+W(ex,vv).esum(t),bv(MAXH,32)),view,"R"))
        ex.assume_univ(st,Univ("th-bound2",T,lambda vv,t:And(ULT(W(ex,vv).th(t),bv(MAXH,32)),ULT(W(ex,vv).esum(t),bv(MAXH,32))),view,"R"))
        ex.assume(st,And(ULT(W(ex,view).clock(),bv(1<<60,64)),ULE(W(ex,view).bfree(),bv(1<<31,32))))
        ex.res.assumptions.add("ghost recency clock does not reach 2^60; at most 2^31 free list nodes (block numbers are distinct and below 2^31)")
        ex.res.assumptions.add("fewer than 20000 connections use one entry or table at a time (MAXCLIENTS is 10240), so 15/16-bit reference counts do not overflow")
    def pairsum(s,ex,st,e,view):
        """esum(t) is the sum of eh over the entries of t: two different entries contribute both"""
        def f(vv,x): w=W(ex,vv); return Implies(And(x!=e,w.tab(x)==w.tab(e)),ULE(w.eh(x)+w.eh(e),w.esum(w.tab(e))))
        ex.assume_univ(st,Univ("esum-pair",E,f,view,"R"))
    def skolem(s,ex,st,cl,pre=None):
        name,props,sorts,f=cl; vs=[]
        def const(n,so):
            v=z3.Const(n,so); ex.keep.append(v); return v
        for i,so in enumerate(sorts):
            if so in(E,T,N,"raw"): v=const(f"sk{i}.{so}",Obj); ex.okind[tid(v)]=so; ex.assume(st,ULE(rid(v),bv(ex.ridmax,16)))
            elif so in("X","B"): v=const(f"sk{i}.{so}",B32)
            elif so in(("HK",),("HX",H),"Hset"): 
                h=const(f"sk{i}.h",Obj); ex.okind[tid(h)]=H; ex.assume(st,ULE(rid(h),bv(ex.ridmax,16)))
                v=h if so=="Hset" else (h,const(f"sk{i}.x",B32))
            else: raise Exception("sort")
            ex.register(st,so,v); vs.append(v)
        w=W(ex,st)
        return f(w,*vs) if pre is None else f(W(ex,pre),w,*vs)
    def prove_inv(s,ex,st,what="at exit",frames=()):
        for cl in CL:
            if not ex.relevant(cl[1]): continue
            s.prove(ex,st,cl,what)
    def prove(s,ex,st,cl,what,pre=None):
        if not ex.relevant(cl[1]): return
        ex.push(); old=s.enter_scope(ex,cl)
        try:
            st2=st.copy(); f=s.skolem(ex,st2,cl,pre)
            ex.oblige(st2,f,cl[0],f"{cl[0]} {what}",cl[1],assume=False)
        finally: ex.pop(); ex.scope,s.maxd=old
    def enter_scope(s,ex,cl):
        old=ex.scope,s.maxd; g=GROUP.get(cl[0])
        ex.scope=set(USEDBY[g]) if g else set(FRAMEUSE.get(cl[0],"SR"))
        s.maxd=2 if g and g!="L" else 1
        return old
class FakeI:
    op="store"
    def __init__(s,x,line): s.x=x; s.line=line
class _TI:
    k="int"; w=32; size=4
B32i=_TI()

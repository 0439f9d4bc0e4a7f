"""Base specification: engine hooks, contracts of the C library, and the target registry.
A contract replaces a call; everything in /repo without a contract is inlined (so extracting or merging
helpers does not change what is verified)."""
import z3
from .engine import *
from .engine import Log

BS=16384
class Target:
    """one verification unit: a function of /repo, its precondition (setup) and postcondition (on exit)"""
    def __init__(s,name,fn,props,setup,budget=300,module=None,loops=None,nparams=None):
        s.name=name; s.fn=fn; s.props=props; s.setup=setup; s.budget=budget; s.module=module; s.loops=loops; s.nparams=nparams

def word(x,w):
    if isinstance(x,z3.BoolRef): return If(x,bv(1,w),bv(0,w))
    if x.size()==w: return x
    return Extract(w-1,0,x) if x.size()>w else ZeroExt(w-x.size(),x)

class Spec:
    def __init__(s): s.h={}; s.extra_loops=[]; s.trusted=set()
    # hooks
    def neighbors(s,ex,st,sort,t,depth): pass
    def skip_live(s,ex,p): return False
    def peel(s,ex,fr): return False
    def unroll(s,ex,fr): return False
    def on_load(s,ex,st,fr,I,p,kind,key,idx): return None
    def after_load(s,ex,st,fr,I,p,kind,key,idx,v): pass
    def on_store(s,ex,st,fr,I,p,kind,key,idx,v): pass
    def on_memcpy(s,ex,st,fr,I,d,sr,n): pass
    def indirect(s,ex,st,fr,I,fp,args,done): return "none"
    def fp(s,ex,st,I,ops):
        """floating point stays uninterpreted (only used for one size computation, see C19)"""
        srt=lambda x:x.sort()
        out=F64 if I.ty.k=="fp" else z3.BoolSort() if (I.ty.k=="int" and I.ty.w==1) else B64 if I.ty.k!="int" else z3.BitVecSort(I.ty.w)
        ops=[ex.tobv(o) if isinstance(o,z3.BoolRef) else o for o in ops]
        n=f"{I.op}{'.'+I.x if isinstance(I.x,str) else ''}"
        return ex.uf(n,*[srt(o) for o in ops],out)(*ops)
    def handler(s,ex,st,f,b,args):
        h=s.h.get(b)
        if h is not None and (getattr(h,"nparams",None) is None or h.nparams==len(args)): return h
        return getattr(s,"c_"+b,None)
    def unknown_extern(s,ex,st,fr,I,b,args):
        ex.res.assumptions.add(f"external function {b}: assumed to have no effect on verified state")
        return False
    def after_havoc(s,ex,ctx,st): pass
    def loop_candidates(s,ex,ctx,st):
        out=[]
        for f in s.extra_loops: out+=f(ex,ctx,st)
        return out
    def where(s,fr,I): return f"{base_name(fr.fn.demangled)}:{I.line}"
    # ---- C library
    def c_memcpy(s,ex,st,fr,I,a,done): ex.memcpy(st,fr,I,a[0],a[1],a[2]); return done(st,a[0])
    c_memmove=c_memcpy
    def c_memset(s,ex,st,fr,I,a,done): ex.memset(st,fr,I,a[0],a[1],a[2]); return done(st,a[0])
    def noop(s,ex,st,fr,I,a,done): return done(st,ex.freshof(I.ty,"lib"))
    c_fprintf=c_printf=c_perror=c_fflush=c_fputs=c_puts=c_fwrite=c_fputc=c_putchar=noop
    def stop(s,ex,st,fr,I,a,done):
        if st.notes.get("onexit"): st.notes["onexit"](st)
        return "stop"
    c_exit=c__exit=c_abort=stop
    def c___errno_location(s,ex,st,fr,I,a,done): return done(st,Ptr(ex.region("errno","errno",bv(4,64))))
    def alloc(s,ex,st,n,zero=False,kind=None):
        n=word(n,64)
        return ex.malloc(st,n,kind)
    def c_malloc(s,ex,st,fr,I,a,done):
        o=ex.malloc(st,word(a[0],64))
        st.notes.setdefault("unkind",())
        return done(st,Ptr(o))
    def memcmp(s,ex,st,fr,I,a,done,strn=False):
        """result 0 iff the n bytes agree (strncmp: callers pass a left operand without NUL in the first n bytes)"""
        n=word(a[2],64)
        p,q=ex.frm(a[0]),ex.frm(a[1])
        ex.rangecheck(st,fr,I,p,n,"compare"); ex.rangecheck(st,fr,I,q,n,"compare")
        r=ex.fresh("cmp",B32); k=ex.fresh("cmpix",B64)
        view=Snap(st)
        A=lambda i: ex.byteread(view,p,i)
        Bf=lambda i: ex.byteread(view,q,i)
        # r!=0 -> a witness index differs ; r==0 -> all equal (a universally quantified fact over byte indices)
        ex.assume(st,Or(r==0,And(ULT(k,n),A(k)!=Bf(k))))
        ex.assume(st,Implies(n==0,r==0))
        ex.assume_univ(st,Univ("cmp_eq","byteix",lambda v,t:Implies(And(r==0,ULT(t,n)),A(t)==Bf(t)),view))
        ex.register(st,"byteix",k)
        st.events=st.events+(("cmp",p,q,n,r,k,A,Bf),)
        return done(st,r)
    def c_memcmp(s,ex,st,fr,I,a,done): return s.memcmp(ex,st,fr,I,a,done)
    def c_strncmp(s,ex,st,fr,I,a,done):
        """strncmp(with,data,n) where `with` has no NUL among its first n bytes: same as byte comparison"""
        n=word(a[2],64); p,q=ex.frm(a[0]),ex.frm(a[1]); view=Snap(st)
        sk=ex.fresh("nul",B64)
        nn=st.notes.get("nonul")
        if nn: nn(ex,st,p,sk,n)
        ex.oblige(st,Implies(ULT(sk,n),Or(ex.byteread(view,p,sk)!=0,ex.byteread(view,q,sk)!=0)),"strncmp-nul",f"strncmp at {s.where(fr,I)}: the compared bytes contain no common NUL that would end the comparison early",("C10","C11"))
        return s.memcmp(ex,st,fr,I,a,done)

def byte_at(ex,view,rb,i,st=None,bs=BS,base=0):
    """i-th oldest unread byte of the ring buffer at Ptr rb"""
    rp=ex.read(view,ex.kind_of(rb),("f",rb.off+bs,16),rb.obj,None,B16)
    idx=ZeroExt(48,Extract(15,0,i)+rp)&bv(bs-1,64)
    return ex.read(view,ex.kind_of(rb),("a",rb.off,8),rb.obj,simplify(idx),B8)
def rb_rp(ex,view,rb,bs=BS): return ex.read(view,ex.kind_of(rb),("f",rb.off+bs,16),rb.obj,None,B16)
def rb_wp(ex,view,rb,bs=BS): return ex.read(view,ex.kind_of(rb),("f",rb.off+bs+2,16),rb.obj,None,B16)
def rb_rem(ex,view,rb,bs=BS): return simplify(rb_wp(ex,view,rb,bs)-rb_rp(ex,view,rb,bs))

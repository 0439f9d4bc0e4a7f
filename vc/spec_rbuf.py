"""C10: the ring buffer."""
from .specbase import *

PR=("C10",)
def mk(): 
    s=Spec(); return s
def setup_rb(ex,st,bs=BS):
    rb=Ptr(ex.region("arg.rb","read_buffer",bv(bs+4,64)))
    rp,wp=rb_rp(ex,st,rb,bs),rb_wp(ex,st,rb,bs)
    ex.watch["read_position"]=rp; ex.watch["write_position"]=wp
    ex.assume(st,ULE(wp-rp,bv(bs,16)))
    ex.safety=PR
    return rb,rp,wp
def umin(a,b): return If(ULT(a,b),a,b)
def u32(x): return ZeroExt(32-x.size(),x) if x.size()<32 else x
def frame(ex,st,pre,rb,bs=BS):
    """the operation leaves positions and contents alone"""
    j=ex.fresh("sk.j",B64)
    ex.oblige(st,And(rb_rp(ex,st,rb,bs)==rb_rp(ex,pre,rb,bs),rb_wp(ex,st,rb,bs)==rb_wp(ex,pre,rb,bs)),"frame-pos","read and write position unchanged")
    ex.oblige(st,Implies(ULT(j,bv(bs,64)),ex.read(st,"read_buffer",("a",0,8),rb.obj,j,B8)==ex.read(pre,"read_buffer",("a",0,8),rb.obj,j,B8)),"frame-data","buffered bytes unchanged")
def lens(ex,view,rb,bs=BS):
    rp,wp=rb_rp(ex,view,rb,bs),rb_wp(ex,view,rb,bs)
    rem=u32(simplify(wp-rp)); ri=u32(rp)&bv(bs-1,32); wi=u32(wp)&bv(bs-1,32)
    return rem,ri,wi
def t_len(which):
    def setup(ex,st,spec):
        bs=spec.bs
        rb,rp,wp=setup_rb(ex,st,bs); pre=Snap(st)
        rem,ri,wi=lens(ex,pre,rb,bs); B=bv(bs,32)
        def post(ex,st,ret):
            r=u32(ret)
            if which=="rem": c=r==rem
            elif which=="wrem": c=r==B-rem
            elif which=="cont": c=r==umin(rem,B-ri)
            elif which=="toend": c=Or(r==umin(rem,B-ri),And(rem==B,r==B))
            elif which=="wtoend": c=r==umin(B-rem,B-wi)
            ex.oblige(st,c,"length","the reported length is exact",PR)
            frame(ex,st,pre,rb,bs)
        return [rb],post
    return setup
def t_init(ex,st,spec):
    bs=spec.bs
    rb=Ptr(ex.region("arg.rb","read_buffer",bv(bs+4,64))); ex.safety=PR
    def post(ex,st,ret):
        ex.oblige(st,And(rb_rp(ex,st,rb,bs)==0,rb_wp(ex,st,rb,bs)==0),"empty","a fresh buffer is empty",PR)
    return [rb],post
def t_copyn(ex,st,spec):
    bs=spec.bs
    rb,rp,wp=setup_rb(ex,st,bs); n=z3.BitVec("arg.n",32); cap=z3.BitVec("arg.cap",64)
    d=Ptr(ex.region("arg.dest","raw",cap))
    ex.watch["n"]=n
    ex.assume(st,And(n>=0,n<=bs,UGE(cap,SignExt(32,n)),ULE(cap,bv(1<<20,64))))
    pre=Snap(st); rem,ri,wi=lens(ex,pre,rb,bs)
    def post(ex,st,ret):
        m=umin(n,rem)
        ex.oblige(st,ret==m,"count","copies min(n, bytes available)",PR)
        j=ex.fresh("sk.i",B64)
        ex.oblige(st,Implies(ULT(j,ZeroExt(32,m)),ex.read(st,"raw",("a",0,8),d.obj,j,B8)==byte_at(ex,pre,rb,j,bs=bs)),"bytes","byte i of the destination is the i-th oldest unread byte",PR)
        ex.oblige(st,Implies(And(UGE(j,ZeroExt(32,m)),ULT(j,cap)),ex.read(st,"raw",("a",0,8),d.obj,j,B8)==ex.read(pre,"raw",("a",0,8),d.obj,j,B8)),"dest-frame","nothing is written beyond them",PR)
        frame(ex,st,pre,rb,bs)
    return [rb,d,n],post
def t_cmpn(ex,st,spec):
    bs=spec.bs
    rb,rp,wp=setup_rb(ex,st,bs); n=z3.BitVec("arg.n",32); cap=z3.BitVec("arg.cap",64)
    d=Ptr(ex.region("arg.with","raw",cap)); ex.watch["n"]=n
    ex.assume(st,And(n>=0,n<=bs,UGE(cap,SignExt(32,n)),ULE(cap,bv(1<<20,64))))
    pre=Snap(st); rem,ri,wi=lens(ex,pre,rb,bs)
    W=lambda i: ex.read(pre,"raw",("a",0,8),d.obj,i,B8)
    n64=SignExt(32,n)
    # requires: the constant compared against has no NUL among its first n bytes (checked at every call site)
    def nonul(ex,st,p,sk,nn):
        i=simplify(p.total()+sk); ex.assume(st,Implies(ULT(i,n64),W(i)!=0))
    st.notes["nonul"]=nonul
    def post(ex,st,ret):
        j=ex.fresh("sk.i",B64)
        for e in st.events:
            if e[0]=="cmp":
                ex.register(st,"byteix",simplify(j-e[1].total()))
        eqj=W(j)==byte_at(ex,pre,rb,j,bs=bs)
        if ret.size()!=32: raise Unsupported("return type")
        ex.oblige(st,Implies(And(ret==0,ULT(j,n64)),And(rem>=n,eqj)),"equal","0 only if all n oldest unread bytes are present and equal",PR)
        # nonzero: some witness differs or too few bytes
        wit=[And(ULT(simplify(e[1].total()+e[5]),n64),W(simplify(e[1].total()+e[5]))!=byte_at(ex,pre,rb,simplify(e[1].total()+e[5]),bs=bs)) for e in st.events if e[0]=="cmp"]
        ex.oblige(st,Implies(ret!=0,Or(rem<n,*wit)),"differ","non-zero only if too few bytes are buffered or some byte differs",PR)
        frame(ex,st,pre,rb,bs)
    return [rb,d,n],post
MAXI=(1<<31)-1
def t_strntol(ex,st,spec):
    bs=spec.bs
    rb,rp,wp=setup_rb(ex,st,bs); mx=z3.BitVec("arg.max",32)
    outp=Ptr(ex.region("arg.out","raw",bv(4,64))); ex.watch["max"]=mx
    pre=Snap(st); rem,ri,wi=lens(ex,pre,rb,bs)
    ex.assume(st,mx>=-1)
    m=If(Or(mx==-1,mx>rem),rem,mx); m64=ZeroExt(32,m)
    V=ex.uf("spec.val",B64,B64); OK=ex.uf("spec.isnum",B64,z3.BoolSort())
    byte=lambda i: byte_at(ex,pre,rb,i,bs=bs)
    d=lambda i: ZeroExt(56,byte(i))-48
    dig=lambda i: And(UGE(byte(i),bv(48,8)),ULE(byte(i),bv(57,8)))
    nxt=lambda i: V(i)*10+d(i)
    ex.assume(st,And(V(bv(0,64))==0,OK(bv(0,64))))
    def step(v,i):
        """definition of the spec functions: decimal value of the first i digits, and 'is a representable number'"""
        i1=simplify(i+1)
        return Implies(ULT(i,bv(bs,64)),And(
            OK(i1)==And(OK(i),dig(i),ULE(nxt(i),bv(MAXI,64))),
            Implies(OK(i1),V(i1)==nxt(i)), Implies(OK(i),ULE(V(i),bv(MAXI,64))),
            Implies(And(Not(OK(i1)),ULE(i1,m64)),Not(OK(m64)))))
    ex.assume_univ(st,Univ("decimal","pos",step,pre))
    ri64=ZeroExt(32,ri)
    def cands(ex,ctx,st):
        out=[]
        ptrs=[I for I in ctx.phis if I.ty.k=="ptr"]; ints=[I for I in ctx.phis if I.ty.k=="int" and I.ty.w>=16]
        pos=[]
        for I in ptrs:
            def off(ph,I=I):
                p=ex.frm(ph[I.id])
                return p.total() if p.obj.eq(rb.obj) else None
            pos.append((f"p{I.id}a",lambda ph,off=off:None if off(ph) is None else off(ph)-ri64))
            pos.append((f"p{I.id}b",lambda ph,off=off:None if off(ph) is None else off(ph)-ri64+bs))
        for I in ints:
            pos.append((f"i{I.id}",lambda ph,I=I:SignExt(64-I.ty.w,ph[I.id]) if I.ty.w<64 else ph[I.id]))
            pos.append((f"m{I.id}",lambda ph,I=I:m64-(SignExt(64-I.ty.w,ph[I.id]) if I.ty.w<64 else ph[I.id])))
        for nm,f in pos:
            def bound(st,ph,k,f=f):
                q=f(ph)
                if q is None: return None
                q=simplify(q); ex.register(st,"pos",q); ex.register(st,"pos",simplify(q-1))
                return ULE(q,m64)
            def okc(st,ph,k,f=f):
                q=f(ph)
                return None if q is None else OK(simplify(q))
            out.append(Cand(f"pos:{nm}",bound)); out.append(Cand(f"ok:{nm}",okc))
            # a number phi that holds the value of the prefix
            for I in ints:
                if I.ty.w<32: continue
                def val(st,ph,k,f=f,I=I):
                    q=f(ph)
                    if q is None: return None
                    x=ph[I.id]; x=x if x.size()==64 else ZeroExt(64-x.size(),x)
                    return And(x==V(simplify(q)),ULE(x,bv(MAXI,64)))
                out.append(Cand(f"val:{nm}:{I.id}",val))
            for J in ints:
                def link(st,ph,k,f=f,J=J):
                    q=f(ph)
                    if q is None: return None
                    x=SignExt(64-J.ty.w,ph[J.id]) if J.ty.w<64 else ph[J.id]
                    ib=SignExt(64-J.ty.w,ctx.init[J.id]) if J.ty.w<64 else ctx.init[J.id]
                    q0=f(ctx.init)
                    return None if q0 is None else x+simplify(q)==ib+q0
                out.append(Cand(f"link:{nm}:{J.id}",link))
        return out
    spec.extra_loops=[cands]
    def post(ex,st,ret):
        ex.register(st,"pos",simplify(m64-1))
        r=ret if isinstance(ret,z3.BoolRef) else ret!=0
        o=ex.read(st,"raw",("a",0,32),outp.obj,bv(0,64),B32)
        ex.oblige(st,Implies(r,And(m>0,OK(m64))),"accept","only strings of decimal digits whose value is representable are accepted",PR)
        ex.oblige(st,Implies(r,ZeroExt(32,o)==V(m64)),"value","the value returned is the decimal value",PR)
        ex.oblige(st,Implies(Not(r),Or(m<=0,Not(OK(m64)))),"reject","only non-numbers and unrepresentable numbers are rejected",PR)
        frame(ex,st,pre,rb,bs)
    return [rb,outp,mx],post
def targets(bs=BS):
    def M():
        s=Spec(); s.bs=bs; return s
    T=[Target("rbuf_read_remaining","rbuf_read_remaining",PR,t_len("rem")),Target("rbuf_write_remaining","rbuf_write_remaining",PR,t_len("wrem")),
       Target("rbuf_read_contiguous","rbuf_read_contiguous",PR,t_len("cont")),Target("rbuf_read_to_end","rbuf_read_to_end",PR,t_len("toend")),
       Target("rbuf_write_to_end","rbuf_write_to_end",PR,t_len("wtoend")),Target("rbuf_init","rbuf_init",PR,t_init),Target("rbuf_copyn","rbuf_copyn",PR,t_copyn),
       Target("rbuf_cmpn","rbuf_cmpn",PR,t_cmpn),Target("rbuf_strntol","rbuf_strntol",PR,t_strntol)]
    return [(M,t) for t in T]

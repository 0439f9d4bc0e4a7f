"""Loads LLVM bitcode (produced mechanically from /repo's C++ on every run) into plain Python objects,
through libLLVM's stable C API (ctypes).  No program text is written by hand: the verified text is the
compiler's own lowering of the code that runs."""
import ctypes as C, glob, os
from collections import namedtuple

_lib=None
def lib():
    global _lib
    if _lib: return _lib
    for p in ["/usr/lib/llvm-18/lib/libLLVM.so","/usr/lib/llvm-18/lib/libLLVM.so.1","/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]:
        if os.path.exists(p):
            _lib=C.CDLL(p); break
    L=_lib
    vp=C.c_void_p
    def sig(n,r,*a):
        f=getattr(L,n); f.restype=r; f.argtypes=list(a)
    sig("LLVMContextCreate",vp)
    sig("LLVMCreateMemoryBufferWithContentsOfFile",C.c_int,C.c_char_p,C.POINTER(vp),C.POINTER(C.c_char_p))
    sig("LLVMParseIRInContext",C.c_int,vp,vp,C.POINTER(vp),C.POINTER(C.c_char_p))
    for n in ["LLVMGetFirstFunction","LLVMGetFirstGlobal","LLVMGetNextFunction","LLVMGetNextGlobal","LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock","LLVMGetFirstInstruction","LLVMGetNextInstruction","LLVMTypeOf","LLVMGetElementType",
              "LLVMGlobalGetValueType","LLVMGetInitializer","LLVMGetReturnType","LLVMGetCalledValue","LLVMGetCalledFunctionType",
              "LLVMGetGEPSourceElementType","LLVMGetAllocatedType","LLVMBasicBlockAsValue","LLVMGetSwitchDefaultDest","LLVMGetEntryBasicBlock"]:
        sig(n,vp,vp)
    sig("LLVMGetCondition",vp,vp)
    sig("LLVMGetOperand",vp,vp,C.c_uint)
    sig("LLVMGetParam",vp,vp,C.c_uint)
    sig("LLVMGetSuccessor",vp,vp,C.c_uint)
    sig("LLVMGetIncomingValue",vp,vp,C.c_uint)
    sig("LLVMGetIncomingBlock",vp,vp,C.c_uint)
    sig("LLVMStructGetTypeAtIndex",vp,vp,C.c_uint)
    sig("LLVMGetAggregateElement",vp,vp,C.c_uint)
    for n in ["LLVMGetTypeKind","LLVMGetIntTypeWidth","LLVMGetNumOperands","LLVMCountParams","LLVMGetNumSuccessors","LLVMCountIncoming",
              "LLVMCountStructElementTypes","LLVMGetInstructionOpcode","LLVMGetICmpPredicate","LLVMGetFCmpPredicate","LLVMGetValueKind","LLVMIsDeclaration",
              "LLVMIsGlobalConstant","LLVMIsConditional","LLVMGetNumArgOperands","LLVMGetConstOpcode","LLVMGetVolatile","LLVMGetDebugLocLine",
              "LLVMIsConstantString","LLVMGetNumIndices","LLVMGetLinkage","LLVMIsPackedStruct"]:
        sig(n,C.c_uint,vp)
    sig("LLVMGetArrayLength2",C.c_uint64,vp)
    sig("LLVMGetValueName2",C.c_char_p,vp,C.POINTER(C.c_size_t))
    sig("LLVMGetStructName",C.c_char_p,vp)
    sig("LLVMGetBasicBlockName",C.c_char_p,vp)
    sig("LLVMConstIntGetZExtValue",C.c_ulonglong,vp)
    sig("LLVMPrintValueToString",C.c_char_p,vp)
    sig("LLVMGetDataLayoutStr",C.c_char_p,vp)
    sig("LLVMCreateTargetData",vp,C.c_char_p)
    sig("LLVMABISizeOfType",C.c_ulonglong,vp,vp)
    sig("LLVMOffsetOfElement",C.c_ulonglong,vp,vp,C.c_uint)
    sig("LLVMConstRealGetDouble",C.c_double,vp,C.POINTER(C.c_int))
    sig("LLVMGetAsString",vp,vp,C.POINTER(C.c_size_t))
    sig("LLVMGetIndices",C.POINTER(C.c_uint),vp)
    return L

OPC={1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",
29:"getelementptr",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",
60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",49:"va_arg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",
55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad",66:"fneg"}
PRED={32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FPRED={0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}

class Type:
    __slots__=("k","w","name","elts","offs","n","elt","size")
    def __init__(s,k,**kw):
        s.k=k; s.w=s.name=s.elts=s.offs=s.n=s.elt=None; s.size=0
        for a,b in kw.items(): setattr(s,a,b)
    def __repr__(s):
        if s.k=="int": return f"i{s.w}"
        if s.k=="struct": return f"%{s.name}"
        if s.k=="array": return f"[{s.n}x{s.elt}]"
        return s.k

class Inst:
    __slots__=("op","id","ty","ops","x","line","name")
class Block:
    __slots__=("name","insts","succs","preds","idx")
class Function:
    __slots__=("name","params","pnames","ret","blocks","decl","module","internal","bymap","loops","demangled")
class Global:
    __slots__=("name","ty","init","const","decl","internal","module")
class Module:
    pass

class Loader:
    def __init__(s): s.L=lib(); s.types={}
    def load(s,path,src):
        L=s.L
        s.types={}
        ctx=L.LLVMContextCreate(); buf=C.c_void_p(); err=C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(),C.byref(buf),C.byref(err)): raise Exception(err.value)
        m=C.c_void_p()
        if L.LLVMParseIRInContext(ctx,buf,C.byref(m),C.byref(err)): raise Exception(err.value)
        s.td=L.LLVMCreateTargetData(L.LLVMGetDataLayoutStr(m))
        M=Module(); M.src=src; M.functions={}; M.globals={}; M.structs={}
        s.M=M
        g=L.LLVMGetFirstGlobal(m)
        while g:
            G=Global(); G.name=s.vname(g); G.ty=s.ty(L.LLVMGlobalGetValueType(g)); G.const=bool(L.LLVMIsGlobalConstant(g))
            G.decl=bool(L.LLVMIsDeclaration(g)); G.internal=L.LLVMGetLinkage(g) in (8,9); G.module=src
            G.init=None if G.decl else s.const(L.LLVMGetInitializer(g))
            M.globals[G.name]=G
            g=L.LLVMGetNextGlobal(g)
        f=L.LLVMGetFirstFunction(m)
        while f:
            F=s.func(f,src); M.functions[F.name]=F
            f=L.LLVMGetNextFunction(f)
        return M
    def vname(s,v):
        n=C.c_size_t(); return (s.L.LLVMGetValueName2(v,C.byref(n)) or b"").decode()
    def ty(s,t):
        L=s.L
        if t in s.types: return s.types[t]
        k=L.LLVMGetTypeKind(t)
        if k==0: r=Type("void")
        elif k==8: w=L.LLVMGetIntTypeWidth(t); r=Type("int",w=w,size=(w+7)//8)
        elif k==12: r=Type("ptr",size=8)
        elif k in(2,3): r=Type("fp",w=32 if k==2 else 64,size=4 if k==2 else 8)
        elif k==4: r=Type("fp80",size=16)
        elif k==10:
            n=L.LLVMGetStructName(t); r=Type("struct",name=(n.decode() if n else None))
            s.types[t]=r
            c=L.LLVMCountStructElementTypes(t)
            r.elts=[s.ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(c)]
            try: r.size=L.LLVMABISizeOfType(s.td,t); r.offs=[L.LLVMOffsetOfElement(s.td,t,i) for i in range(c)]
            except Exception: r.offs=[]
            if r.name is None: r.name="lit{"+",".join(map(str,r.elts))+"}"
            for pre in("struct.","union.","class."):
                if r.name.startswith(pre): r.name=r.name[len(pre):]
            s.M.structs[r.name]=r
        elif k==11: r=Type("array",n=L.LLVMGetArrayLength2(t),elt=s.ty(L.LLVMGetElementType(t))); r.size=r.n*r.elt.size
        elif k==9: r=Type("func")
        else: r=Type("other%d"%k)
        s.types[t]=r
        return r
    def const(s,v):
        L=s.L; k=L.LLVMGetValueKind(v); t=s.ty(L.LLVMTypeOf(v))
        # kinds: 5 Function 6 Alias? ; see llvm-c/Core.h
        K=KINDS.get(k,k)
        if K=="Function": return("func",s.vname(v))
        if K=="GlobalVariable": return("global",s.vname(v))
        if K=="ConstantInt":
            if t.w>64: return("int",t.w,0)
            return("int",t.w,L.LLVMConstIntGetZExtValue(v))
        if K=="ConstantPointerNull": return("null",)
        if K in("UndefValue","PoisonValue"): return("undef",t)
        if K=="ConstantFP":
            b=C.c_int(); return("fp",t.w,L.LLVMConstRealGetDouble(v,C.byref(b)))
        if K=="ConstantAggregateZero": return("zero",t)
        if K in("ConstantArray","ConstantStruct","ConstantDataArray","ConstantVector","ConstantDataVector"):
            if K=="ConstantDataArray" and L.LLVMIsConstantString(v):
                n=C.c_size_t(); p=L.LLVMGetAsString(v,C.byref(n)); return("str",t,C.string_at(p,n.value))
            n=t.n if t.k=="array" else len(t.elts)
            return("agg",t,[s.const(L.LLVMGetAggregateElement(v,i)) for i in range(n)])
        if K=="ConstantExpr":
            op=OPC.get(L.LLVMGetConstOpcode(v)); ops=[s.const(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))]
            x=s.ty(L.LLVMGetGEPSourceElementType(v)) if op=="getelementptr" else None
            return("cexpr",op,t,ops,x)
        return("other",K)
    def operand(s,v):
        L=s.L; k=KINDS.get(L.LLVMGetValueKind(v))
        if k=="Instruction": return("inst",s.ids[v])
        if k=="Argument": return("arg",s.args[v])
        if k=="BasicBlock": return("block",s.bb[v])
        if k=="MetadataAsValue": return("meta",)
        if k=="InlineAsm": return("asm",)
        return s.const(v)
    def func(s,f,src):
        L=s.L; F=Function(); F.name=s.vname(f); F.decl=bool(L.LLVMIsDeclaration(f)); F.module=src
        F.internal=L.LLVMGetLinkage(f) in (8,9); F.loops=None; F.demangled=None
        n=L.LLVMCountParams(f); ps=[L.LLVMGetParam(f,i) for i in range(n)]
        F.params=[s.ty(L.LLVMTypeOf(p)) for p in ps]; F.pnames=[s.vname(p) for p in ps]
        F.ret=s.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
        F.blocks=[]
        if F.decl: return F
        s.args={p:i for i,p in enumerate(ps)}; s.ids={}; s.bb={}
        blks=[]; b=L.LLVMGetFirstBasicBlock(f)
        while b:
            s.bb[L.LLVMBasicBlockAsValue(b)]=len(blks); blks.append(b); b=L.LLVMGetNextBasicBlock(b)
        allins=[]; c=0
        for b in blks:
            i=L.LLVMGetFirstInstruction(b); lst=[]
            while i: s.ids[i]=c; c+=1; lst.append(i); i=L.LLVMGetNextInstruction(i)
            allins.append(lst)
        for bi,b in enumerate(blks):
            B=Block(); B.name=L.LLVMGetBasicBlockName(b).decode(); B.insts=[]; B.succs=[]; B.preds=[]; B.idx=bi
            for v in allins[bi]:
                I=Inst(); I.id=s.ids[v]; I.op=OPC.get(L.LLVMGetInstructionOpcode(v),"?%d"%L.LLVMGetInstructionOpcode(v)); I.ty=s.ty(L.LLVMTypeOf(v)); I.x=None
                I.line=L.LLVMGetDebugLocLine(v); I.name=s.vname(v)
                o=I.op
                if o=="phi":
                    I.ops=[]; I.x=[(s.bb[L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(v,j))],s.operand(L.LLVMGetIncomingValue(v,j))) for j in range(L.LLVMCountIncoming(v))]
                elif o=="br":
                    if L.LLVMIsConditional(v):
                        I.ops=[s.operand(L.LLVMGetCondition(v))]
                    else: I.ops=[]
                    I.x=[s.bb[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(v,j))] for j in range(L.LLVMGetNumSuccessors(v))]
                elif o=="switch":
                    I.ops=[s.operand(L.LLVMGetOperand(v,0))]
                    I.x=[s.bb[L.LLVMGetOperand(v,1)]]+[(s.operand(L.LLVMGetOperand(v,j)),s.bb[L.LLVMGetOperand(v,j+1)]) for j in range(2,L.LLVMGetNumOperands(v),2)]
                elif o in("call","invoke"):
                    I.ops=[s.operand(L.LLVMGetOperand(v,j)) for j in range(L.LLVMGetNumArgOperands(v))]
                    I.x=s.operand(L.LLVMGetCalledValue(v))
                    if o=="invoke": I.x=(I.x,s.bb[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(v,0))])
                else:
                    I.ops=[s.operand(L.LLVMGetOperand(v,j)) for j in range(L.LLVMGetNumOperands(v))]
                    if o=="icmp": I.x=PRED[L.LLVMGetICmpPredicate(v)]
                    elif o=="fcmp": I.x=FPRED[L.LLVMGetFCmpPredicate(v)]
                    elif o=="alloca": I.x=s.ty(L.LLVMGetAllocatedType(v))
                    elif o=="getelementptr": I.x=s.ty(L.LLVMGetGEPSourceElementType(v))
                    elif o in("extractvalue","insertvalue"):
                        n=L.LLVMGetNumIndices(v); p=L.LLVMGetIndices(v); I.x=[p[j] for j in range(n)]
                    elif o=="load": I.x=L.LLVMGetVolatile(v)
                    elif o=="store": I.x=s.ty(L.LLVMTypeOf(L.LLVMGetOperand(v,0)))
                    elif o in("trunc","zext","sext","ptrtoint","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc"): pass
                B.insts.append(I)
            t=B.insts[-1]
            if t.op=="br": B.succs=list(t.x)
            elif t.op=="switch": B.succs=[t.x[0]]+[d for _,d in t.x[1:]]
            elif t.op=="invoke": B.succs=[t.x[1]]
            F.blocks.append(B)
        for B in F.blocks:
            for d in B.succs: F.blocks[d].preds.append(B.idx)
        return F

KINDS={0:"Argument",1:"BasicBlock",2:"MemoryUse",3:"MemoryDef",4:"MemoryPhi",5:"Function",6:"GlobalAlias",7:"GlobalIFunc",8:"GlobalVariable",
9:"BlockAddress",10:"ConstantExpr",11:"ConstantArray",12:"ConstantStruct",13:"ConstantVector",14:"UndefValue",15:"ConstantAggregateZero",
16:"ConstantDataArray",17:"ConstantDataVector",18:"ConstantInt",19:"ConstantFP",20:"ConstantPointerNull",21:"ConstantTokenNone",
22:"MetadataAsValue",23:"InlineAsm",24:"Instruction",25:"PoisonValue",26:"ConstantTargetNone"}

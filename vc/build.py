"""Mechanical extraction: /repo/src -> LLVM bitcode -> Python IR, on every run, in a temp dir that is removed."""
import os, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from . import llir
REPO=os.environ.get("VERIF_REPO","/repo")
CLANG=next((p for p in("/usr/lib/llvm-18/bin/clang++","/usr/bin/clang++-18","/usr/bin/clang++") if os.path.exists(p)),"clang++")
BIN=os.path.dirname(CLANG)
def tool(n):
    for p in(f"/usr/lib/llvm-18/bin/{n}",f"/usr/bin/{n}-18",f"/usr/bin/{n}"):
        if os.path.exists(p): return p
    return n
CORE=["connection","db","hash","http","http_parse","http_parse_cache","http_parse_mon","http_respond","read_buffer","settings","signal_handle","timer"]
PASSES="function(sroa,instsimplify,loop-simplify)"
class BuildError(Exception): pass
class Program:
    """All translation units of the release configuration."""
    def __init__(s,mods):
        s.mods=mods; s.structs={}; s.defs={}; s.glob={}; s.bybase={}
        for m in mods.values():
            for n,t in m.structs.items():
                if n not in s.structs or t.size>s.structs[n].size: s.structs[n]=t
            for f in m.functions.values():
                if not f.decl and not f.internal and f.name not in s.defs: s.defs[f.name]=f
            for g in m.globals.values():
                if not g.decl and not g.internal: s.glob[g.name]=g
        names=sorted({f.name for m in mods.values() for f in m.functions.values()})
        out=subprocess.run([tool("llvm-cxxfilt")],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
        s.dem=dict(zip(names,out))
        for m in mods.values():
            for f in m.functions.values():
                d=s.dem.get(f.name,f.name); f.demangled=d
                if not f.decl: s.bybase.setdefault(base_name(d),[]).append(f)
    def resolve(s,mod,name):
        f=s.mods[mod].functions.get(name)
        if f is not None and not f.decl: return f
        return s.defs.get(name)
    def global_(s,mod,name):
        g=s.mods[mod].globals.get(name)
        if g is not None and not g.decl: return g
        return s.glob.get(name) or g
    def find(s,base,mod=None,nparams=None):
        c=[f for f in s.bybase.get(base,[]) if (mod is None or f.module==mod) and (nparams is None or len(f.params)==nparams)]
        return c[0] if c else None
def base_name(d):
    d=re.sub(r"\s*\[clone.*\]","",d)
    p=d.find("(")
    if p>0: d=d[:p]
    d=re.sub(r"\.\d+$","",d)
    return d.split("::")[-1].split(" ")[-1]
def extract(files=None,defines=(),config=("-DNDEBUG","-DRELEASE"),extra=()):
    files=files or CORE
    tmp=tempfile.mkdtemp(prefix="vcbc")
    try:
        # sources present in the tree but unknown to us are picked up too
        srcs={f[:-4] for f in os.listdir(f"{REPO}/src/core") if f.endswith(".cpp")}
        todo=[f for f in srcs if f in files or f not in CORE]
        def one(f):
            bc=f"{tmp}/{f}.bc"; o=f"{tmp}/{f}.o.bc"
            r=subprocess.run([CLANG,"-std=c++11","-O0","-g1","-fPIC","-Xclang","-disable-O0-optnone","-fno-discard-value-names","-w","-emit-llvm","-c",*config,*defines,
                "-I",f"{REPO}/src/core",f"{REPO}/src/core/{f}.cpp","-o",bc],capture_output=True,text=True)
            if r.returncode: raise BuildError(f"{f}.cpp does not compile:\n"+r.stderr[-2000:])
            r=subprocess.run([tool("opt"),"-passes="+PASSES,bc,"-o",o],capture_output=True,text=True)
            if r.returncode: raise BuildError(r.stderr[-2000:])
            return f,o
        with ThreadPoolExecutor(8) as ex: outs=list(ex.map(one,sorted(todo)))
        ld=llir.Loader()
        return Program({f:ld.load(o,f) for f,o in outs})
    finally: shutil.rmtree(tmp,ignore_errors=True)

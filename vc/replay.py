"""After an obligation has failed: try to concretise it as a failing run of the real code.  The drivers run in a scratch
directory of their own; every file name the code opens or removes is checked to lie inside it first."""
import os,subprocess,tempfile,shutil,time
from concurrent.futures import ThreadPoolExecutor
from .build import REPO
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE=["connection","db","hash","http","http_parse","http_parse_cache","http_parse_mon","http_respond","read_buffer","settings","signal_handle","timer"]
WRAP=["read","write","sendfile","sendfile64","open","open64","unlink","close","fork","system","malloc","free","realloc","calloc"]
DRV={"rbuf":("rbuf_replay.cpp",["read_buffer"],[]),"cache":("cache_replay.cpp",CORE,WRAP)}
FOR={"C10":["rbuf","cache"]}
FLAGS=["-std=c++11","-g","-O1","-w","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-sanitize=alignment","-DNDEBUG","-DRELEASE"]
ENV=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",UBSAN_OPTIONS="print_stacktrace=1")
def build(name,tmp):
    src,core,wrap=DRV[name]; units=[f"{HERE}/replay/{src}"]+[f"{REPO}/src/core/{x}.cpp" for x in core]; objs=[f"{tmp}/{i}.o" for i in range(len(units))]
    def one(i): return subprocess.run(["clang++",*FLAGS,"-I",f"{REPO}/src/core","-c",units[i],"-o",objs[i]],capture_output=True,timeout=200).returncode
    with ThreadPoolExecutor(8) as ex:
        if any(ex.map(one,range(len(units)))): return None
    r=subprocess.run(["clang++","-fsanitize=address,undefined",*[f"-Wl,--wrap={w}" for w in wrap],*objs,"-o",f"{tmp}/{name}","-lpthread"],capture_output=True,timeout=200)
    return None if r.returncode else f"{tmp}/{name}"
def run(name,seed,seconds,procs=6):
    tmp=tempfile.mkdtemp(prefix="vreplay")
    try:
        exe=build(name,tmp)
        if not exe: return None
        ps=[]
        for i in range(procs):
            d=f"{tmp}/w{i}"; os.mkdir(d)
            ps.append((i,subprocess.Popen([exe,str(seed*100+i),str(int(seconds)),d],cwd=d,env=ENV,stdout=open(f"{d}/out","wb"),stderr=subprocess.STDOUT,start_new_session=True)))
        end=time.time()+seconds+130; found=None; live=list(ps)
        while live and time.time()<end and not found:
            time.sleep(.2)
            for i,p in list(live):
                rc=p.poll()
                if rc is None: continue
                live.remove((i,p))
                if rc!=0: found=f"driver {DRV[name][0]} seed {seed*100+i}: exit {rc}\n"+open(f"{tmp}/w{i}/out",errors="replace").read()[-7000:]; break
        for i,p in live:
            try: os.killpg(p.pid,9)
            except OSError: pass
            p.wait()
        return found
    finally: shutil.rmtree(tmp,ignore_errors=True)
def search(pid,fails,seed,seconds):
    names=FOR.get(pid,["cache"]); t0=time.time()
    for k,n in enumerate(names):
        try: r=run(n,seed,max(10,(seconds-(time.time()-t0))/(len(names)-k)-25))
        except Exception as e: r=None
        if r: return r
    return None

#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW 'needs' 'breaks' [DEMO]: makes /verif/seeded/ID/ (patch.diff + meta.json) from a text replacement."""
import sys,subprocess,os,json
i,prop,f,old,new,needs,br=sys.argv[1:8]
d=f"/verif/seeded/{i}"; os.makedirs(d,exist_ok=True)
p=f"/repo/{f}"; s=open(p).read()
assert s.count(old)>=1,"old text not found"
n=int(os.environ.get("NTH","0")); k=-1
for _ in range(n+1): k=s.index(old,k+1)
t=s[:k]+new+s[k+len(old):]
open(p,"w").write(t)
diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
open(p,"w").write(s)
open(f"{d}/patch.diff","w").write(diff)
json.dump(dict(property=prop,needs=needs,what_it_breaks=br),open(f"{d}/meta.json","w"),indent=1)

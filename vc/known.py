"""known-findings.txt: `known: property=<id> function=<fn> obligation=<name> <text>` lines suppress exactly that failed obligation; `fixed:` lines suppress nothing."""
import os,re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def split(pid,bad):
    ks=[]
    try:
        for l in open(f"{HERE}/known-findings.txt"):
            m=re.match(r"known: property=(\S+) function=(\S+) obligation=(\S+) (.*)",l)
            if m and m.group(1)==pid: ks.append(m.groups()[1:])
    except OSError: pass
    new=[]; out=[]
    for b in bad:
        k=next((k for k in ks if k[0]==b["function"] and k[1]==b["obligation"].replace(" ","_")),None)
        if k: out.append(f"{k[0]} {k[1]}: {k[2]}")
        else: new.append(b)
    return new,sorted(set(out))

#!/usr/bin/env python3
"""writes MANIFEST.json: claimed properties below, every other one not applicable with its reason"""
import json,sys
sys.path.insert(0,"/verif")
from tools.claims import CLAIMS,NA
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[dict(property=p,quick_cmd=f"python3-vt check.py {p}",thorough_cmd=f"python3-vt check.py {p} --thorough",evidence_file=f"evidence/{p}.json",
    technique="contract-based deductive verification of the LLVM lowering of the real code (own VC generator, z3)",level="proof",level_note=CLAIMS[p]) for p in props if p in CLAIMS]
na=[dict(property=p,reason=NA[p]) for p in props if p not in CLAIMS]
m=dict(version=1,setup_cmd="python3-vt -c 'import z3; from vc import build; build.extract()'",checks=checks,not_applicable=na,
    notes="No hooks in /repo are used: contracts live in /verif/vc and are checked against the LLVM IR of /repo's current sources, extracted on every run.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)

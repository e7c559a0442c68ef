import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import os,re
have=set()
for f in os.listdir('/verif/harness/main'):
    have|=set(re.findall(r'^func H_(C\d\d)_',open('/verif/harness/main/'+f).read(),re.M))
TECH="solver-based checking: symbolic execution of the real Go SSA (memdb/resp/server/util/config/logger), z3 decides every branch and assertion within stated bounds, counterexamples replayed natively"
CONC={"C15","C16","C17","C18","C25"}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        t=TECH
        if i in CONC: t+="; thread interleavings explored exhaustively over the encoded code (sleep-set reduction, bounded preemptions)"
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick bash check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh %s"%i,
          "technique":t,"level":"model_checking",
          "level_note":"Bounded: holds for all symbolic inputs/choices within the bounds reported in the evidence file and DESIGN.md; nothing is claimed outside them. Trusted: the SSA interpreter and its intrinsics (time, fmt, files, locks), validated each run by replaying sampled paths on the natively compiled code; z3 (sampled cross-check with cvc5); the reference model in the harness."})
    else:
        na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses enter through a build overlay. See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))

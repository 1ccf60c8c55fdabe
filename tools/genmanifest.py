#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the properties and the list of claimed ones.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH="contract-based deductive verification of the Go source: contracts in /verif/spec, verification conditions generated from go/ssa of /repo's current tree on every run, discharged by z3 and cvc5"
exec(open('/verif/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        c=CLAIMS[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","technique":TECH,"level":"proof","level_note":c})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo. Every check regenerates the verification conditions from /repo's current source; a bounded run of the real code (labelled bounded in the evidence) searches for a concrete failing input."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")

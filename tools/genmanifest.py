#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness mc/<ID>.cpp."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE={}
exec(open(os.path.join(V,'tools','notes.py')).read())
checks=[];na=[]
for l in open(os.path.join(V,'properties.jsonl')):
    i=json.loads(l)['id']
    if not os.path.exists(os.path.join(V,'mc',i+'.cpp')):
        na.append({"property":i,"reason":"harness not finished yet"}); continue
    t,n=NOTE[i]
    checks.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"python3 check.py "+i+" --thorough","evidence_file":"evidence/"+i+".json",
        "technique":t,"level":"model_checking","level_note":n})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,
 "notes":"Every check compiles its harness against /repo/include, enumerates all choice tapes of its suites depth first (stateless model checking of the real code, in 8 forked workers) and compares each execution with an independent reference model. check.py <ID> --replay <file> executes one recorded counterexample again."}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
print(len(checks),'checks',len(na),'not claimed')

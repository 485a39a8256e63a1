#!/usr/bin/env python3
"""tools/cost.json from the evidence files of clean quick runs"""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T=os.path.join(V,'tools')
f=T+'/cost.json'; C=json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(V+'/evidence/*.json'):
    j=json.load(open(e)); i=os.path.basename(e)[:-5]; c=j['coverage']
    if j.get('violations') or not c.get('exhaustive'): print('skipped',i); continue
    if j.get('tier')=='thorough':
        C.setdefault(i,{})['thorough']='%s executions, %s states, %s transitions in %d s.'%(c['executions'],c['states'],c['transitions'],j['wall_s']); continue
    C.setdefault(i,{}).update(suites=[[s['name'],s['bounds'],s['executions']] for s in c['suites']],executions=c['executions'],states=c['states'],transitions=c['transitions'],traces=c['traces_validated_against_impl'],wall=int(j['wall_s'])+8)
json.dump(C,open(f,'w'),indent=0,sort_keys=True)

#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + a section per property (designnotes.py, bounds and counts of the evidence files) + tools/design_tail.md + table of planted changes (seeded/*/meta.json, tools/caught.json)"""
import json,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T=os.path.join(V,'tools')
sys.path.insert(0,T)
from designnotes import D
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
o=open(T+'/design_head.md').read()
cost=json.load(open(T+'/cost.json')) if os.path.exists(T+'/cost.json') else {}
for p in P:
    i=p['id']; d=D[i]
    o+='\n### %s %s\n\n*Oracle.* %s\n\n*Why exploration.* %s\n\n'%(i,p['title'],d[0],d[1])
    e=cost.get(i)
    if e:
        for s in e['suites']: o+='- `%s` (%s executions): %s\n'%(s[0],s[2],s[1])
        o+='\nQuick run: %s executions, %s states, %s transitions, %s traces validated against the implementation, about %s s with the build on 8 cores.\n'%tuple(e[k] for k in ('executions','states','transitions','traces','wall'))
        if e.get('thorough'): o+='Thorough run: %s\n'%e['thorough']
R=json.load(open(T+'/revert.json')); o+='\n'+open(T+'/design_tail.md').read().replace('@REVERTS@','| repair | property | what failed | check with the repair reverted |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%(k,v['property'],v['what'].replace('|','\\|'),v['result']) for k,v in R.items()))
o+='\n| change | property | needs | caught by |\n|---|---|---|---|\n'
caught=json.load(open(T+'/caught.json')) if os.path.exists(T+'/caught.json') else {}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m)); o+='| %s | %s | %s | %s |\n'%(i,j['property'],j['needs'],caught.get(i,'?'))
open(V+'/DESIGN.md','w').write(o)

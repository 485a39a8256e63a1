#!/usr/bin/env python3
"""Mutation validation: revert every fix: commit listed in known-findings.txt in a scratch copy of /repo and run the
property's check on it. usage: revert.py [property ...]. Result: tools/revert.json"""
import subprocess,sys,os,re,json,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=os.path.join(V,'tools','revert.json'); R=json.load(open(out)) if os.path.exists(out) else {}
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',l)
    if not m or (len(sys.argv)>1 and m[1] not in sys.argv[1:] and m[2] not in sys.argv[1:]): continue
    d=tempfile.mkdtemp(prefix='revert')
    try:
        subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
        p=subprocess.run(['git','-C',d+'/r','-c','user.name=x','-c','user.email=x@x','revert','--no-commit',m[2]],capture_output=True,text=True)
        if p.returncode: R[m[2]]=dict(property=m[1],what=m[3],result='conflict with later repairs'); print(m[2],m[1],'CONFLICT',flush=True)
        else:
            p=subprocess.run([sys.executable,V+'/check.py',m[1]],capture_output=True,text=True,env=dict(os.environ,MC_REPO=d+'/r'))
            v=[x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
            R[m[2]]=dict(property=m[1],what=m[3],result='violation' if p.returncode==1 and v else 'rc %d'%p.returncode); print(m[2],m[1],R[m[2]]['result'],m[3][:60],flush=True)
    finally: shutil.rmtree(d)
    json.dump(R,open(out,'w'),indent=1)

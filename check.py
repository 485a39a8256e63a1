#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [--replay FILE]: build the harness of the property from /repo's working tree
and explore. Exit 0: the property held on everything explored, 1: VIOLATION."""
import os,sys,subprocess,tempfile,shutil,concurrent.futures
V=os.path.dirname(os.path.abspath(__file__)); MC=os.path.join(V,'mc')
REPO=os.environ.get('MC_REPO','/repo')
ASAN=['-fsanitize=address','-fno-omit-frame-pointer']
# property -> (parts of the harness compiled in parallel, optimization, sanitizer)
CONF={}
DEFAULT=dict(parts=1,opt='-O1',san=True)
exec(open(os.path.join(MC,'conf.py')).read())
def main():
    a=sys.argv[1:]; pid=a[0]
    thorough='--thorough' in a or os.environ.get('VERIF_TIER')=='thorough'
    replay=a[a.index('--replay')+1] if '--replay' in a else None
    c=dict(DEFAULT); c.update(CONF.get(pid,{}))
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    rd=os.path.join(V,'replays'); os.makedirs(rd,exist_ok=True)
    ev=os.path.join(V,'evidence',pid+'.json')
    if not replay and os.path.exists(ev): os.unlink(ev)
    b=tempfile.mkdtemp(prefix='mcbuild')
    try:
        fl=['-std=gnu++17','-g1',c['opt'],'-w','-I'+os.path.join(REPO,'include'),'-I'+MC]+(ASAN if c['san'] else [])+c.get('flags',[])
        jobs=[(os.path.join(MC,'mc.cpp'),'mc.o',[])]
        for s in c.get('src',[pid+'.cpp']):
            for i in range(c['parts']): jobs.append((os.path.join(MC,s),'%s%d.o'%(s,i),['-DPART=%d'%i,'-DNPARTS=%d'%c['parts']]))
        def comp(j):
            return j,subprocess.run([c.get('cxx','g++')]+fl+c.get('cflags',[])+(['-std='+c['std'][os.path.basename(j[0])]] if os.path.basename(j[0]) in c.get('std',{}) else [])+j[2]+['-c',j[0],'-o',os.path.join(b,j[1])],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        with concurrent.futures.ThreadPoolExecutor(8) as ex: res=list(ex.map(comp,jobs))
        for j,r in res:
            if r.returncode: sys.stderr.write(r.stdout[-4000:]); sys.stderr.write('cannot build the harness\n'); return 2
        exe=os.path.join(b,'h')
        r=subprocess.run([c.get('cxx','g++')]+fl+[os.path.join(b,j[1]) for j in jobs]+['-o',exe])
        if r.returncode: return 2
        cmd=[exe]
        if thorough: cmd.append('--thorough')
        if replay: cmd+=['--replay',replay]
        else: cmd+=['--evidence',ev,'--replaydir',rd,'--known',os.path.join(V,'known-findings.txt'),'--seed',os.environ.get('VERIF_SEED','1'),
                    '--cap',str(c.get('capt',3600) if thorough else c.get('cap',420))]
        env=dict(os.environ); env['LC_ALL']='C.UTF-8'
        return subprocess.run(cmd,env=env).returncode
    finally:
        shutil.rmtree(b,ignore_errors=True)
sys.exit(main())

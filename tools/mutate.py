#!/usr/bin/env python3
"""Mutation testing of the checks (validation only, not part of any check).
usage: mutate.py gen DIR                 generate mutants of /repo/include/textwolf, keep those that compile and pass the tests
       mutate.py run DIR [FILE..]        run the checks on them until one of them reports a violation
DIR/mutants.json holds the state; stop and continue at any time."""
import os,re,sys,json,subprocess,tempfile,shutil,random,concurrent.futures,difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); INC=os.environ.get('MUT_SRC','/repo/include')+'/textwolf'
ORDER={
'xmlscanner.hpp':'S12 S01 S05 S08 S06 S04','textscanner.hpp':'C04 S01 S11 S02',
'cstringiterator.hpp':'S09 S03 S11','istreamiterator.hpp':'S10 S09 S11 X01','sourceiterator.hpp':'S11 S02 X01',
'traits.hpp':'S09 S11 S02 X01','char.hpp':'C04 S01 S12','endian.hpp':'C01',
'xmlpathautomaton.hpp':'P04 P01 P02 P05','xmlpathautomatonparse.hpp':'P03 P05','xmlpathselect.hpp':'P01 P04 P02 P06',
'xmlprinter.hpp':'W01 W02 W03','xmltagstack.hpp':'W03 X01','staticbuffer.hpp':'B01 X01','xmlhdrparser.hpp':'H01 H02','exception.hpp':'S12',
'ostreamoutput.hpp':'W01','position.hpp':'S11','charset_isolatin.hpp':'C03 C01 C04 C02','codepages.hpp':'C03',
'charset_utf8.hpp':'C01 C02 C04 S02','charset_utf16.hpp':'C01 C02 C04 S02','charset_ucs.hpp':'C01 C02 C04 S02','charset_interface.hpp':'C01','charset.hpp':'C01'}
def code(l):
    s=l.strip(); return s and not s.startswith(('//','*','/*','#','template','typedef','class ','struct ','///','public','private','namespace','using'))
KIND='ops'
def types(f):
    L=open(INC+'/'+f).read().split('\n'); out=[]
    for n,l in enumerate(L):
        c=l.split('//')[0]
        if c.strip().startswith(('*','#','template')): continue
        for x in re.finditer(r'\b(std::size_t|unsigned int|int|unsigned short|PositionIndex|UChar)\b(?!\))',c):
            for t in ('unsigned char','unsigned short') if x[1]!='unsigned short' else ('unsigned char',):
                if re.search(r'unsigned $',c[:x.start()]): continue
                out.append(dict(file=f,line=n,old=l,new=l[:x.start()]+t+l[x.end():]))
    return out
def mutants(f):
    if KIND=='types': return types(f)
    L=open(INC+'/'+f).read().split('\n'); out=[]; incom=False
    for n,l in enumerate(L):
        if not code(l): continue
        c=l.split('//')[0]
        def add(a,b,new):
            m=l[:a]+new+l[b:]
            if m!=l: out.append((n,m))
        for x in re.finditer(r'(?<![<>=!&|+\-*/])(<=|>=|==|!=|<|>|&&|\|\|)(?![<>=&|])',c):
            if x[1] in '<>' and (re.search(r'[\w]'+re.escape(x[1])+r'[\w]',c[max(0,x.start()-1):x.end()+1]) and ' ' not in c[x.start()-1:x.end()+1]): 
                pass
            for r in {'<':['<=','>='],'>':['>=','<='],'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&']}[x[1]]: add(x.start(),x.end(),r)
        for x in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',c):
            v=int(x[1]); add(x.start(),x.end(),str(v+1)); 
            if v: add(x.start(),x.end(),str(v-1))
        for x in re.finditer(r'(?<=[\w\s\)]) ?([+\-]) ?(?=[\w\s\(])',c): add(x.start(1),x.end(1),'-' if x[1]=='+' else '+')
        for x in re.finditer(r'\b(true|false)\b',c): add(x.start(),x.end(),'false' if x[1]=='true' else 'true')
        for x in re.finditer(r'\+\+|--',c): add(x.start(),x.end(),'--' if x[0]=='++' else '++')
        s=l.strip()
        if re.match(r'^[\w\.\->\[\]\(\)\s\+\*&,:=!<>?\|]+;\s*(//.*)?$',s) and not re.match(r'^(return|break|continue|[A-Za-z_:<>]+[ \*&]+\w+( =|;|\[))',s): out.append((n,l[:len(l)-len(l.lstrip())]+';'))
        if re.match(r'^(break|continue);',s): out.append((n,l.replace(s,';')))
        x=re.match(r'^(\s*)(else )?if \((.*)\)\s*$',c)
        if x: out.append((n,'%s%sif (!(%s))'%(x[1],x[2] or '',x[3])))
        x=re.match(r'^(\s*)if \((.*?)\) (\w.*;)\s*$',c)
        if x: out.append((n,x[1]+';'))
        if re.search(r'\[ ?\w+ *\]\.?\(|\)\(|\.miss\(|\.other\(|\.fallback|\]\.action|\]\(',c) and '[ ' in c:
            for x in re.finditer(r'\((\w+(?:,\w+)+)\)',c):
                g=x[1].split(',')
                if g[-1].isupper() or re.match(r'[A-Z0-9_]+$',g[-1]):
                    add(x.start(),x.end(),'')
                    if len(g)>2:
                        for k in range(len(g)-1): add(x.start(),x.end(),'('+','.join(g[:k]+g[k+1:])+')')
    u=[]; seen=set()
    for n,m in out:
        if (n,m) not in seen: seen.add((n,m)); u.append(dict(file=f,line=n,old=L[n],new=m))
    return u
def materialize(m,d):
    os.makedirs(d+'/include'); shutil.copytree(INC,d+'/include/textwolf'); shutil.copy(INC+'.hpp',d+'/include/')
    p=d+'/include/textwolf/'+m['file']; L=open(p).read().split('\n'); n=m['line'] if m['line']<len(L) and L[m['line']]==m['old'] else L.index(m['old']); L[n]=m['new']; open(p,'w').write('\n'.join(L))
TESTS=['readStdinIterator','test_TextReader','test_XMLPathSelect','test_XMLScanner']
def runtests(d,inc):
    r={}
    for t in TESTS:
        b=subprocess.run(['g++','-O0','-w','-std=gnu++98','-I'+inc,'/repo/tests/%s.cpp'%t,'-o',d+'/t'],capture_output=True)
        if b.returncode: return None
        try: p=subprocess.run([d+'/t'],stdin=open('/repo/README','rb'),capture_output=True,timeout=20)
        except subprocess.TimeoutExpired: return 'fail'
        r[t]=(p.returncode,bool(re.search(rb'^(error|failed)\b',p.stderr,re.I|re.M)),sorted(set(re.findall(rb'^PASSED Test (\S+)$',p.stdout,re.M))))
    return r
def test(m,base):
    d=tempfile.mkdtemp(prefix='mut')
    try:
        materialize(m,d); r=runtests(d,d+'/include')
        return 'nocompile' if r is None else 'passes' if r==base else 'killed'
    finally: shutil.rmtree(d)
def gen(D):
    os.makedirs(D,exist_ok=True); d=tempfile.mkdtemp(); base=runtests(d,'/repo/include'); shutil.rmtree(d)
    ms=[]
    for f in sorted(os.listdir(INC)):
        if f in ORDER and f!='codepages.hpp': ms+=mutants(f)
    print(len(ms),'mutants',flush=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i,(m,r) in enumerate(zip(ms,ex.map(lambda m:test(m,base),ms))):
            m['tests']=r
            if i%200==0: print(i,flush=True)
    json.dump(ms,open(D+'/mutants.json','w'),indent=0)
    from collections import Counter; print(Counter((m['file'],m['tests']) for m in ms))
def run(D,files):
    ms=json.load(open(D+'/mutants.json')); todo=[m for m in ms if m['tests']=='passes' and 'caught' not in m and (not files or m['file'] in files)]
    random.Random(7).shuffle(todo); seen={}
    for m in todo: m['nth']=seen[m['file'],m['line']]=seen.get((m['file'],m['line']),0)+1
    todo.sort(key=lambda m:m['nth']) # one of every line first
    rdone=os.path.exists(D+'/results.json') and json.load(open(D+'/results.json')) or {}
    vc=os.environ.get('VERIF_COPY',V)
    for m in todo:
        k='%s:%d:%s'%(m['file'],m['line'],m['new'].strip())
        if k in rdone: continue
        d=tempfile.mkdtemp(prefix='mut'); res='SURVIVED'
        try:
            try: materialize(m,d)
            except ValueError: continue
            for c in ORDER[m['file']].split():
                try: p=subprocess.run([sys.executable,vc+'/check.py',c],capture_output=True,text=True,timeout=900,env=dict(os.environ,MC_REPO=d))
                except subprocess.TimeoutExpired: res='timeout '+c; break
                if p.returncode==1 and 'VIOLATION' in p.stdout: res=c; break
                if p.returncode not in (0,): res='rc%d %s'%(p.returncode,c); break
        finally: shutil.rmtree(d)
        rdone[k]=res; json.dump(rdone,open(D+'/results.json','w'),indent=0)
        print(res,k,'   WAS',m['old'].strip(),flush=True)
if __name__=='__main__':
    if sys.argv[1]=='gen':
        if len(sys.argv)>3: KIND=sys.argv[3]
        gen(sys.argv[2])
    else: run(sys.argv[2],sys.argv[3:])

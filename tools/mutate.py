#!/usr/bin/env python3
"""mutate.py [-s SEED] [-n COUNT] [-f SUBSTR] OUT: random small changes of /repo that
still build and pass the stable tests; each is given to the checks. Survivors
(passing tests and checks) are written to OUT for review."""
import sys,os,re,random,subprocess,shutil,tempfile,json,glob,argparse,threading,difflib
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser()
ap.add_argument('-s',type=int,default=1); ap.add_argument('-n',type=int,default=100)
ap.add_argument('-f',default=''); ap.add_argument('-j',type=int,default=7); ap.add_argument('-t',action='store_true',help='checks first: a survivor that fails the tests is a hole'); ap.add_argument('out')
A=ap.parse_args()
rnd=random.Random(A.s)
ENV=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); ENV[k]=v
base=json.load(open('/opt/vp/BASELINE.json'))
stable=set(base['tests'] if 'tests' in base else base.get('stable',[]))
files=[f for f in subprocess.run(['git','ls-files','*.go'],cwd='/repo',capture_output=True,text=True).stdout.split() if not f.endswith('_test.go') and not f.startswith('vendor/') and A.f in f]
MAP=[('ccs08','C09 C07 C08 C11 C10 C12 C35 C14 C13 C28 C34 C39'),('bulletproofs/bprp','C02 C38 C13 C14 C28 C34 C35 C05'),('bulletproofs','C02 C01 C03 C04 C06 C29 C35 C14 C13 C28 C34'),
('crypto/bn256','C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C35'),('crypto/p256','C17 C18 C15 C34 C28 C16'),('crypto/bb','C12 C35 C28'),('util','C30 C31 C32 C33 C15 C04 C28 C35 C16')]
ALL=['C%02d'%i for i in range(1,40) if i not in (36,37)]
idre=re.compile(r'\b[A-Za-z_][A-Za-z_0-9]*\b')
def code_lines(src):
    out=[]; blk=False; imp=False
    for i,l in enumerate(src):
        s=l.strip()
        if blk:
            if '*/' in s: blk=False
            continue
        if s.startswith('/*'):
            blk='*/' not in s; continue
        if s.startswith('import ('): imp=True
        if imp:
            if s==')': imp=False
            continue
        if not s or s.startswith('//') or s.startswith('package') or s.startswith('import') or s in '{})': continue
        out.append(i)
    return out
def func_range(src,i):
    a=i
    while a>0 and not src[a].startswith('func'): a-=1
    b=i
    while b<len(src)-1 and not src[b].startswith('}'): b+=1
    return a,b
SWAP=[('.Add(','.Sub('),('.Sub(','.Add('),('.Mul(','.Add('),('.Multiply(','.Add('),('<=','<'),('>=','>'),(' < ',' <= '),(' > ',' >= '),('==','!='),('!=','=='),('&&','||'),('||','&&'),('true','false'),('false','true'),(' + ',' - '),(' - ',' + '),('++','--'),('*','/'),('.x','.y'),('.y','.x'),('.X','.Y'),('.Y','.X'),('nil','err'),('err','nil'),('.Set(','.Neg('),('Square','Double'),('Double','Square'),('.z','.t'),('.t','.z'),('G1','G2'),('.Neg','.Set')]
def mutate(src,i):
    l=src[i]; s=l.strip(); k=rnd.randrange(8)
    cm=l.find('//'); lim=cm if cm>=0 else len(l)
    if k==0:
        c=[(a,b,m.start()) for a,b in SWAP for m in re.finditer(re.escape(a),l[:lim])]
        if not c: return None
        a,b,p=rnd.choice(c); return l[:p]+b+l[p+len(a):]
    if k==1:
        if s.endswith('{') or s.endswith(',') or s.startswith('}') or ':=' in s or s.startswith('case') or s.startswith('return') or s.startswith('var') or s.startswith('func'): return None
        return ''
    if k==2:
        c=list(re.finditer(r'(?<![\w.])\d+\b',l[:lim]))
        if not c: return None
        m=rnd.choice(c); v=int(m.group()); return l[:m.start()]+str(rnd.choice([v+1,max(v-1,0),2*v,0]))+l[m.end():]
    if k in(3,4):
        a,b=func_range(src,i)
        names=set()
        for x in src[a:b+1]:
            x=x.split('//')[0]
            names|=set(idre.findall(x))
        names-={'func','return','if','else','for','range','var','nil','int64','int','bool','error','string','big','Int','len','append','make','new','err','byte','switch','case','default','break','continue','true','false','const','type','struct'}
        c=[m for m in idre.finditer(l[:lim]) if m.group() in names and l[m.end():m.end()+1] not in('(','.') and not s.startswith('func')]
        if not c or len(names)<2: return None
        m=rnd.choice(c); n=rnd.choice(sorted(names-{m.group()})); return l[:m.start()]+n+l[m.end():]
    if k==5:
        m=list(re.finditer(r'\(([\w.\[\]]+), ([\w.\[\]]+)',l[:lim]))
        if not m: return None
        m=rnd.choice(m); return l[:m.start()]+'('+m.group(2)+', '+m.group(1)+l[m.end():]
    if k==6:
        m=re.match(r'(\s*)if (.*) \{$',l[:lim].rstrip())
        if not m: return None
        return m.group(1)+rnd.choice(['if false && (%s) {','if (%s) || true {','if !(%s) {'])%m.group(2) if ';' not in m.group(2) else None
    if k==7:
        # argument replaced by its neighbour, or receiver changed
        m=list(re.finditer(r'\(([\w.\[\]]+), ([\w.\[\]]+)',l[:lim]))
        if not m: return None
        m=rnd.choice(m); t=rnd.choice([1,2]); return l[:m.start()]+'('+m.group(t)+', '+m.group(t)+l[m.end():]
seen=set(); muts=[]
weights=[]
for f in files:
    src=open('/repo/'+f).read().split('\n'); weights+=[(f,i) for i in code_lines(src)]
SRC={f:open('/repo/'+f).read().split('\n') for f in files}
tries=0
while len(muts)<A.n and tries<A.n*60:
    tries+=1
    f,i=rnd.choice(weights); r=mutate(SRC[f],i)
    if r is None or r==SRC[f][i] or (f,i,r) in seen: continue
    seen.add((f,i,r)); muts.append((f,i,r))
A.last=0
lock=threading.Lock(); cnt={'nobuild':0,'tests':0,'caught':0,'SURVIVED':0,'noanswer':0}
dirs=[]; tl=threading.local(); by={}
def work(m):
    f,i,r=m
    if not hasattr(tl,'d'):
        tl.d=tempfile.mkdtemp(prefix='mut'); dirs.append(tl.d)
        subprocess.run(['cp','-a','/repo/.',tl.d],check=True)
    d=tl.d; src=list(SRC[f]); old=src[i]; src[i]=r
    p=os.path.join(d,f)
    try:
        open(p,'w').write('\n'.join(src))
        b=subprocess.run(['go','build','./...'],cwd=d,env=ENV,capture_output=True,text=True,errors='replace')
        if b.returncode: cnt['nobuild']+=1; return
        def tests():
            t=subprocess.run(['bash','-c','ulimit -v 16000000; timeout 170 go test -json -vet=off -timeout 150s ./...'],cwd=d,env=ENV,capture_output=True,text=True,errors='replace')
            if t.returncode:
                bad=False; passed=set()
                for l in t.stdout.splitlines():
                    try: e=json.loads(l)
                    except Exception: continue
                    if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package'].split('zkrp',1)[-1].strip('/')+'/'+e['Test'])
                return False
            return True
        if not A.t and not tests(): cnt['tests']+=1; return
        first=[]
        for pre,ps in MAP:
            if f.startswith(pre) and not first: first=ps.split()
        for q in first:
            try:
                c=subprocess.run(['/verif/checker/bin/zkcheck','-property',q,'-repo',d,'-out',d+'.o','-j','2'],capture_output=True,text=True,errors='replace',timeout=900)
            except subprocess.TimeoutExpired:
                with lock: cnt['noanswer']+=1; open(A.out,'a').write('TIMEOUT %s %s:%d\n- %s\n+ %s\n'%(q,f,i+1,old,r))
                continue
            if c.returncode==1:
                v=next((x for x in c.stdout.splitlines() if 'VIOLATION' in x or 'definite' in x or 'undecided' in x),'')
                with lock:
                    cnt['caught']+=1; by[q]=by.get(q,0)+1; open(A.out+'.caught','a').write('%s %s:%d\n- %s\n+ %s\n'%(q,f,i+1,old,r))
                    if 'undecided' in c.stdout and 'definite' not in c.stdout: open(A.out,'a').write('undecided-only %s %s:%d\n- %s\n+ %s\n  %s\n'%(q,f,i+1,old,r,v[:250]))
                return
            if c.returncode!=0:
                with lock: open(A.out,'a').write('RC%d %s %s:%d\n- %s\n+ %s\n %s\n'%(c.returncode,q,f,i+1,old,r,c.stderr[-300:]))
        hole='SURVIVED' if not A.t or tests() else 'HOLE'
        with lock:
            cnt['SURVIVED']+=1; open(A.out,'a').write(hole+' %s:%d\n- %s\n+ %s\n'%(f,i+1,old,r))
    finally:
        open(p,'w').write('\n'.join(SRC[f]))
        with lock:
            n=sum(cnt.values())
            if n//25>A.last:
                A.last=n//25; open(A.out+'.log','a').write(str(n)+' '+str(cnt)+' '+str(by)+'\n')
try:
    with ThreadPoolExecutor(A.j) as ex: list(ex.map(work,muts))
finally:
    for d in dirs: shutil.rmtree(d,ignore_errors=True); shutil.rmtree(d+'.o',ignore_errors=True)
    open(A.out+'.log','a').write('end '+str(cnt)+' '+str(by)+'\n')

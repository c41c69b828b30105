#!/usr/bin/env python3
"""refactor.py FILE...: behaviour-preserving rewrites. Each FILE defines edits=[(file,old,new)...]
(and optionally files={path:text}); the tree must build, pass the stable tests, and leave every registered check quiet."""
import sys,subprocess,shutil,tempfile,os,json
from concurrent.futures import ThreadPoolExecutor
args=sys.argv[1:]; only=None; notest=False
if args and args[0].startswith('-p'): only=args[0][2:].split(','); args=args[1:]
if args and args[0]=='-n': notest=True; args=args[1:]
props=only or [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for fn in args:
    ns={}; exec(open(fn).read(),ns)
    d=tempfile.mkdtemp(prefix='refac',dir='/tmp')
    try:
        subprocess.run(['cp','-a','/repo/.',d],check=True)
        bad=False
        for f,old,new in ns['edits']:
            p=os.path.join(d,f); s=open(p).read()
            if s.count(old)<1: print(fn,'OLD not found:',f,old[:80]); bad=True; continue
            open(p,'w').write(s.replace(old,new,1))
        for f,t in ns.get('files',{}).items(): open(os.path.join(d,f),'w').write(t)
        if bad: continue
        env=dict(os.environ); env['GOFLAGS']=env.get('GOFLAGS','')
        b=subprocess.run('. /opt/vp/env.sh; go build ./... && go vet ./... 2>/dev/null; go build ./...',shell=True,cwd=d,capture_output=True,text=True,errors='replace')
        if b.returncode: print(fn,'no build',b.stdout[:500],b.stderr[:1500]); continue
        if not notest:
            t=subprocess.run('. /opt/vp/env.sh; go test -vet=off ./... 2>&1 | grep -E "^(---|FAIL|ok|panic)" | head -20',shell=True,cwd=d,capture_output=True,text=True,errors='replace')
            f=[l for l in t.stdout.splitlines() if not l.startswith('ok')]
            if f: print(fn,'TESTS:',f[:8])
        def one(q):
            r=subprocess.run([os.environ.get('ZK','/verif/checker/bin/zkcheck'),'-property',q,'-repo',d,'-out','/tmp/o'],capture_output=True,text=True,errors='replace')
            return q,r.returncode,[x for x in r.stdout.splitlines() if x],r.stderr
        with ThreadPoolExecutor(4) as ex:
            res=list(ex.map(one,props))
        al=[r for r in res if r[1]!=0]
        print(os.path.basename(fn),'quiet' if not al else 'ALARMS: '+' '.join(r[0] for r in al))
        for q,rc,l,e in al:
            for x in l[:1]: print('   ',q,rc,x[:330])
            if not l: print('   ',q,rc,e[:300])
    finally:
        shutil.rmtree(d)

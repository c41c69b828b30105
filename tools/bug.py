#!/usr/bin/env python3
# bug.py FILE...: creates and validates /verif/seeded/<id>/ from a Python description:
#   id, prop, pkg, edits=[(file, old, new)], demo (Go test source with TestDemo), needs, breaks
# With -c, only runs the checker on each bug and prints which checks catch it.
import sys,os,subprocess,json,shutil
ENV=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    if '=' in l:
        k,v=l.split('=',1); ENV[k]=v
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
go test -vet=off -count=1 -run TestDemo -overlay <(echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}") ./%(pkg)s
'''
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def run(cmd,cwd,t=600):
    return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t)
def tests(cwd):
    r=run(['go','test','-json','-vet=off','-count=1','./...'],cwd)
    open('/tmp/bug_go.json','w').write(r.stdout)
    run(['python3','/opt/vp/results.py','/tmp/bug_o.json','gojson:/tmp/bug_go.json'],cwd)
    p=set(json.load(open('/tmp/bug_o.json'))['passed'])
    return [s for s in stable if s not in p]
def one(f):
    b={}
    exec(open(f).read(),b)
    d='/verif/seeded/'+b['id']
    os.makedirs(d,exist_ok=True)
    w='/tmp/bugwork'
    shutil.rmtree('/tmp/bugwork',ignore_errors=True)
    run(['cp','-a','/repo',w],'/')
    open(d+'/demo_test.go','w').write(b['demo'])
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg']))
    r=run(['bash',d+'/demo.sh'],w)
    if r.returncode!=0: print(b['id'],'DEMO FAILS UNPATCHED',r.stdout[-1500:],r.stderr[-800:]); return
    for fn,o,n in b['edits']:
        s=open(w+'/'+fn).read()
        if s.count(o)!=1: print(b['id'],'edit matches',s.count(o),'times:',o); return
        open(w+'/'+fn,'w').write(s.replace(o,n))
    df=run(['git','diff'],w).stdout
    open(d+'/patch.diff','w').write(df)
    r=run(['go','build','./...'],w)
    if r.returncode: print(b['id'],'BUILD',r.stderr); return
    miss=tests(w)
    if miss: print(b['id'],'TESTS FAIL',miss); return
    r=run(['bash',d+'/demo.sh'],w)
    if r.returncode==0: print(b['id'],'DEMO PASSES PATCHED'); return
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    print(b['id'],'ok:',[l for l in (r.stdout).splitlines() if 'demo' in l or 'panic' in l][:2])
    # base repository lines
    shutil.rmtree('/tmp/bugwork',ignore_errors=True)
for f in sys.argv[1:]: one(f)

#!/usr/bin/env python3
"""try.py PROP[,PROP] FILE OLD NEW: run checks against a copy of /repo with one replacement."""
import sys,subprocess,shutil,tempfile,os
props,f,old,new=sys.argv[1:5]
d=tempfile.mkdtemp(prefix='try')
try:
    subprocess.run(['cp','-a','/repo/.',d],check=True)
    p=os.path.join(d,f); s=open(p).read()
    if s.count(old)<1: print('OLD not found'); sys.exit(2)
    open(p,'w').write(s.replace(old,new,1))
    b=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True,errors='replace')
    if b.returncode: print('no build',b.stderr[:300]); sys.exit(2)
    for q in props.split(','):
        r=subprocess.run([os.environ.get('ZK','/verif/checker/bin/zkcheck'),'-property',q,'-repo',d,'-out','/tmp/o'],capture_output=True,text=True,errors='replace')
        l=[x for x in r.stdout.splitlines() if x]
        print(q,'CAUGHT' if r.returncode==1 else 'QUIET' if r.returncode==0 else 'rc%d'%r.returncode, (l[0][:220] if l else r.stderr[:200]))
finally:
    shutil.rmtree(d)

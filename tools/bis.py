#!/usr/bin/env python3
"""bisect.py PROPS FILE: apply each edit of a refactoring alone, and name those that make a check speak."""
import sys,subprocess,os
props,fn=sys.argv[1:3]
ns={}; exec(open(fn).read(),ns)
for i,e in enumerate(ns['edits']):
    p='/tmp/bis%d.py'%i
    open(p,'w').write('edits=%r\n'%[e])
    r=subprocess.run(['python3','/verif/tools/refactor.py','-p'+props,'-n',p],capture_output=True,text=True,errors='replace')
    print(i,e[2][:60].replace('\n','|'),'::',r.stdout[:400])
    os.remove(p)

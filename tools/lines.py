#!/usr/bin/env python3
"""lines.py: planted bugs whose removed lines are all lines that own commits added."""
import os,re,subprocess,glob
base=set()
names=subprocess.run(['git','ls-tree','-r','--name-only','1fae046'],cwd='/repo',capture_output=True,text=True).stdout.split()
B={n:set(subprocess.run(['git','show','1fae046:'+n],cwd='/repo',capture_output=True,text=True,errors='replace').stdout.split('\n')) for n in names if n.endswith('.go') and not n.endswith('_test.go')}
for d in sorted(glob.glob('/verif/seeded/*/')):
    f=None; rem=[];bad=[]
    for l in open(d+'patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('-') and not l.startswith('---'):
            (rem if l[1:].rstrip('\n') in B.get(f,()) else bad).append(l.strip())
    if bad or not rem: print(os.path.basename(d[:-1]),'orig',len(rem),'own',bad)

#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
AI='static analysis: abstract interpretation of the SSA form in an algebraic domain (polynomial normal forms, joins at merge points, loop summaries)'
ENGINE='All inputs, aliasings and branch outcomes of the functions are covered symbolically. Trusted: golang.org/x/tools/go/ssa, the transfer functions for math/big and the library calls, the normal forms of the checker. '
C={}
def c(id,level,tech,note): C[id]=(level,tech,note)
c('C19','proof',AI,ENGINE+'P and its primality come from the source (C25).')
c('C20','proof',AI,ENGINE+'GF(p^2) operations are taken as proved by C19.')
c('C21','proof',AI,ENGINE+'Jacobian formulas are compared with chord, tangent and infinity in the field of fractions; that these define a group is mathematics, not checked.')
c('C22','proof',AI,ENGINE+'GF(p^2) operations are taken as proved by C19; group law as for C21.')
exec(open('/verif/tools/claims.py').read()) if __import__('os').path.exists('/verif/tools/claims.py') else None
NA={
'C36':'Constant running time cannot hold in this code base: every operation runs on math/big, whose running time depends on the operand values, and scalar multiplication branches on secret bits by design. A static analysis would flag the whole library; there is no version of the statement that the code satisfies.',
'C37':'Soundness against all efficient provers and zero knowledge are computational statements about probability distributions and hardness assumptions; no dataflow or algebraic argument over the source bounds them. The algebraic parts they rest on are C01-C05, C07-C11, C13, C14.',
}
checks=[]; na=[]
for i in ids:
    if i in C:
        l,t,n=C[i]
        checks.append(dict(property=i,quick_cmd='bash checker/check.sh '+i,thorough_cmd='VERIF_TIER=thorough bash checker/check.sh '+i,
          evidence_file='evidence/%s.json'%i,technique=t,level=l,level_note=n.strip()))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check yet.')))
json.dump(dict(version=1,setup_cmd='bash checker/build.sh',checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')

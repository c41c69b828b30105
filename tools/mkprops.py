#!/usr/bin/env python3
# Generates /verif/properties.jsonl (source of the property texts).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

BP='bulletproofs/bp.go'; BI='bulletproofs/bip.go'; BU='bulletproofs/util.go'; BV='bulletproofs/vector.go'; BR='bulletproofs/bprp.go'
CC='ccs08/ccs08.go'; BB='crypto/bbsignatures/bb.go'; UT='util/util.go'; PP='crypto/p256/p256.go'; PC='crypto/p256/mycurve.go'
BN='crypto/bn256/bn256.go'

prop('C01','Honest Bulletproofs range proofs are accepted',
 'For every supported range [0,2^N) and every secret inside it, the proof produced with the parameters returned by the setup is accepted by verification without an error, whatever random numbers were drawn. The commitment in the proof is g^secret.h^gamma for the blinding factor the prover drew.',
 ['inputs','configurations'],'all N in {1,2,4,8,16,32}, all secrets in [0,2^N), all values of every random draw, all values of the Fiat-Shamir challenges that are not zero modulo the group order',
 'The tests prove three or four secrets with one range and one draw of randomness each; the identity behind acceptance has to hold for every secret, every mask and every challenge.',
 [BP,BI,BU,BV,UT],[('prover','bp.go Prove'),('verifier','bp.go BulletProof.Verify'),('inner product argument','bip.go proveInnerProduct/computeBipRecursive/Verify'),('delta(y,z)','bp.go delta')])
prop('C02','A Bulletproofs range proof is accepted only if every equation of the paper holds',
 'Verification of a range proof returns true only if t(x) matches the commitments (equation 65), the committed polynomials open to the given vectors (equations 66 and 67) and the inner product argument is accepted for exactly that commitment, that inner product and the public generators, where generators and bases never come from the proof. Proofs with missing or extra elements, points off the curve or an unsupported size are rejected, never accepted and never a crash.',
 ['inputs'],'all proof objects, i.e. all points and scalars in every field, including the ones an attacker chooses',
 'Tests only check honest proofs and a few out-of-range secrets; dropping one of the equations, or checking it against a value from the proof, accepts forged proofs that no test builds.',
 [BP,BI,BU],[('conditions (65)-(67)','bp.go BulletProof.Verify'),('inner product statement','bp.go Verify / bip.go Verify'),('validity of points','util.go isValid')])
prop('C03','The inner product argument is complete and checks the folded equation',
 'For vectors of every length that is a power of two up to 32, the argument produced for P = g^a.h^b and c = <a,b> is accepted. Verification returns true only if the generators folded with the challenges of all rounds satisfy P.prod(L^(x^2).R^(x^-2)) = g^A.h^B.U^(A.B), and arguments whose number of rounds does not match the length are rejected with an error.',
 ['inputs','configurations'],'all vectors of scalars, generators and challenges; lengths 1,2,4,8,16,32; all argument objects for the verifier',
 'One test runs the argument on one vector of length 4; folding errors that cancel for special vectors or lengths stay invisible.',
 [BI,BV],[('prover','bip.go computeBipRecursive'),('verifier','bip.go InnerProductProof.Verify')])
prop('C04','Fiat-Shamir challenges bind the statement and all earlier messages',
 'Every challenge of the Bulletproofs range proof, of the inner product argument and of the set-membership and range proofs based on signatures is the hash of the statement and of all prover messages that precede it, computed identically by prover and verifier; the two challenges derived from one transcript differ. The verifier recomputes every challenge and never takes one from the proof unchecked.',
 ['inputs'],'all transcripts',
 'An honest run does not notice that an element is left out of a hash, or that a challenge of the proof is used as it is; only a forger does.',
 [BU,BP,BI,CC,UT],[('transcript hash','bulletproofs/util.go HashBP'),('inner product hash','bip.go hashIP'),('CCS08 hashes','util/util.go HashSet, Hash')])
prop('C05','Proofs for generic intervals [A,B) are exactly as strong as their two halves',
 'For all integers A<=x<B with B-A at most 2^32 the generic proof consists of a range proof for x-B+2^32 and one for x-A, and it is accepted. Verification returns true only if both halves are accepted, and errors of either half are reported.',
 ['inputs'],'all 64-bit bounds A and B, all secrets',
 'The tests use one interval and the secrets at its ends.',
 [BR],[('prover','bprp.go ProveGeneric'),('verifier','bprp.go ProofBPRP.Verify'),('setup','bprp.go SetupGeneric')])
prop('C06','Bulletproofs setup accepts exactly the ranges it supports',
 'Setup succeeds exactly for range ends 2^N with N in {1,2,4,8,16,32} and reports an error for every other 64-bit number, including negative ones. On success it returns N, the base point and 2N+1 further generators that are hashes of pairwise distinct public strings to the curve.',
 ['inputs'],'all 2^64 values of the range end',
 'The tests call setup with one or two range ends; the rejected ones are 2^64-6 numbers.',
 [BP,BU,PP],[('domain check','bp.go Setup, util.go IsPowerOfTwo'),('generators','bp.go Setup, p256.go MapToGroup')])
prop('C07','Honest set membership proofs are accepted',
 'For every set that setup signed, every member of it and every blinding factor, the set membership proof produced by the prover is accepted by the verifier without an error.',
 ['inputs','configurations'],'all sets, all members, all keys, all values of the random draws and of the challenge',
 'One test with one set, one member and one draw; completeness is an identity over all of them.',
 [CC,UT,BB],[('prover','ccs08.go ProveSet'),('verifier','ccs08.go VerifySet')])
prop('C08','Honest [0,u^l) range proofs are accepted',
 'For every base u and number of digits l and every secret in [0,u^l), the range proof produced from the signatures on the digits 0..u-1 is accepted by the verifier without an error. The commitment it contains is g^secret.h^r for the blinding factor that was passed in.',
 ['inputs','configurations'],'all secrets in [0,u^l), all keys, all values of the random draws and of the challenge, u = 57 as used by the range scheme and l from 1 to 11',
 'One test proves one secret for u=10, l=5.',
 [CC,UT],[('prover','ccs08.go ProveUL'),('verifier','ccs08.go VerifyUL'),('digits','util.go Decompose')])
prop('C09','Signature-based proofs are accepted only if every verification equation holds',
 'The verifiers of set membership and [0,u^l) range proofs return true only if the challenge is the one of the transcript, D = C^c.h^zr.g^(sum of u^i.zsig_i), and for every digit a_i = e(y,V_i)^c.e(g,V_i)^-zsig_i.e(g,g)^zv_i with V_i different from the identity. Proofs with a wrong number of digits are rejected.',
 ['inputs'],'all proof objects, all public keys',
 'The tests verify honest proofs only: a verifier that skips a digit, an equation or the identity check accepts all of them too.',
 [CC],[('set verifier','ccs08.go VerifySet'),('range verifier','ccs08.go VerifyUL')])
prop('C10','The signature-based provers refuse what has not been signed',
 'Asking for a set membership proof of an element that is not in the set, or for a range proof of a secret one of whose digits has no signature, returns an error instead of a proof, and the composed prover passes the error on.',
 ['inputs'],'all elements and secrets outside the signed sets, at any digit position',
 'No test asks for a proof of a non-member.',
 [CC],[('lookups','ccs08.go ProveSet, ProveUL'),('propagation','ccs08.go Prove')])
prop('C11','The [a,b) range scheme composes two proofs about one secret',
 'For 0<=a<=b and b>=2 setup chooses l with u^l>b, it rejects a>b and b=1, and the prover proves x-b+u^l and x-a; then every secret a<=x<b is accepted. Verification returns true only if both proofs are accepted and their commitments differ by exactly g^(u^l-b+a), so that both are about the same secret.',
 ['inputs'],'all 0<=a<=b with b>=2 (64 bit), all secrets, all pairs of proofs for the verifier',
 'One test with one interval; linking of the two commitments can only fail with forged pairs.',
 [CC],[('setup','ccs08.go Setup'),('prover','ccs08.go Prove'),('verifier','ccs08.go Verify')])
prop('C12','Signatures verify under their key and only valid ones verify',
 'The public key is g1^sk for a uniformly drawn sk, a signature on m is g2^(1/(m+sk)), and verification returns true exactly if e(y.g1^m, signature) = e(g1,g2). Key generation reports success without an error, and signing a message m = -sk, which has no signature, reports an error.',
 ['inputs'],'all messages, keys and signatures',
 'The single test signs one message and ignores the error of key generation.',
 [BB],[('keys','bb.go Keygen'),('signatures','bb.go Sign'),('verification','bb.go verify')])
prop('C13','Every secret mask is a fresh uniform number from the system randomness',
 'Each key, nonce and blinding factor that the library draws comes from the operating system random source with the group order as exclusive bound, and no two masks of the same or of different proofs share one draw.',
 ['inputs','histories'],'all runs and all numbers of digits, bits and proofs; every draw',
 'A reused or badly distributed mask still gives accepted proofs, so no functional test notices it.',
 [BP,CC,BB,BN],[('vectors of masks','bp.go sampleRandomVector'),('masks','bp.go Prove, ccs08.go ProveSet/ProveUL'),('keys','bb.go Keygen, bn256.go RandomG1/RandomG2')])
prop('C14','Proofs and public parameters carry no secret',
 'Every scalar and group element contained in a proof is masked by at least one random number that is not itself determined by the proof, and neither the secret, its digits, nor any mask, vector or blinding factor is stored in it. The public parameters of the signature-based schemes contain the signatures and the public key but not the signing key.',
 ['inputs'],'all proofs produced for all secrets, all parameter objects',
 'A proof that contains its own secrets verifies just as well.',
 [BP,BI,CC],[('range proof object','bp.go Prove'),('signature-based proof objects','ccs08.go ProveSet, ProveUL'),('parameters','ccs08.go SetupSet, SetupUL')])
prop('C15','Pedersen commitments equal g^x.h^r for all x and r',
 'The commitment functions return g^x.h^r in both groups for all integers x and r, including zero, negative ones, multiples of the group order and cases in which the two factors are equal or inverse to each other. They change neither their arguments nor the generator.',
 ['inputs'],'all pairs of integers, all elements h',
 'Tests use random operands; the special cases of the addition formula have negligible probability.',
 [UT,PP,BN],[('G2 commitment','util.go Commit'),('P256 commitment','util.go CommitG1')])
prop('C16','Hash-to-point returns points of the curve determined by the input string',
 'The result is the point whose x coordinate is the first of the hashes of counter and string, reduced modulo the field prime, that is on the curve; it satisfies the curve equation and is not the point at infinity. If no counter below 256 gives a point an error is returned.',
 ['inputs'],'all strings',
 'One string is tested.',
 [PP],[('hash to point','p256.go MapToGroup'),('curve equation','p256.go F, IsOnCurve'),('hash','p256.go HashToInt')])
prop('C17','Operations on secp256k1 elements implement the group law',
 'Multiplication of group elements, doubling, inverse and powers return the element of the group law for all operands, including the identity, equal and opposite operands, negative exponents and exponents that are multiples of the group order, whether or not the receiver is one of the operands. Only the receiver changes.',
 ['inputs'],'all points, all exponents, all ways in which receiver and operands coincide (Add: operands that are not equal)',
 'Tests use a handful of multiples of the base point; identity, opposite operands and aliasing are the untested cases.',
 [PP,PC],[('group API','p256.go Neg/Add/Double/ScalarMult/ScalarBaseMult/Multiply/IsZero'),('chord formula','mycurve.go Add/addJacobian/affineFromJacobian')])
prop('C18','The secp256k1 addition formula and curve constants are right',
 'Affine addition of two different points returns the third intersection of the chord reflected at the axis, and (0,0) for opposite points, with coordinates reduced modulo the field prime. The curve parameters are those of SEC 2, the base point lies on the curve, and the curve test accepts exactly y^2=x^3+7.',
 ['inputs'],'all pairs of points with different x coordinates or opposite y coordinates',
 'A formula that is wrong for some inputs, e.g. when a difference is negative, passes tests with a few points.',
 [PC,PP],[('addition','mycurve.go Add, addJacobian, affineFromJacobian'),('constants','mycurve.go init'),('curve test','p256.go IsOnCurve, F')])
prop('C19','Arithmetic in GF(p^2) is right for all operands and aliasings',
 'Addition, subtraction, negation, conjugation, doubling, multiplication, squaring, multiplication by scalars and by xi, inversion and exponentiation in GF(p^2) return the field element they stand for, for all operands, whether or not the receiver is one of the operands; other operands do not change. Multiplication, squaring and inversion return coordinates in [0,p).',
 ['inputs'],'all elements, in reduced or unreduced representation, all ways in which receiver and operands coincide',
 'Tests invert single elements; a wrong coefficient, a missing reduction or an aliasing error needs a specific operand.',
 ['crypto/bn256/gfp2.go'],[('operations','gfp2.go')])
prop('C20','Arithmetic in GF(p^6) and GF(p^12) is right for all operands and aliasings',
 'All operations of the extension fields GF(p^6) and GF(p^12), including the Frobenius maps, inversion and exponentiation, return the field element they stand for, for all operands, whether or not the receiver is one of the operands; other operands do not change.',
 ['inputs'],'all elements, all ways in which receiver and operands coincide',
 'Tests invert single elements.',
 ['crypto/bn256/gfp6.go','crypto/bn256/gfp12.go'],[('GF(p^6)','gfp6.go'),('GF(p^12)','gfp12.go')])
prop('C21','Point arithmetic on the G1 curve implements the group law',
 'Addition, doubling, negation, conversion to affine form and scalar multiplication of points of y^2=x^3+3 in Jacobian coordinates implement the group law for all operands, including infinity, equal and opposite points in different representations, whether or not the receiver is one of the operands. The curve test accepts exactly the affine points on the curve.',
 ['inputs'],'all points in all Jacobian representations, all scalars, all aliasings',
 'Tests cover random multiples of the generator, never the special cases in unusual representations.',
 ['crypto/bn256/curve.go'],[('formulas','curve.go Add, Double, Mul, MakeAffine, Negative, IsOnCurve')])
prop('C22','Point arithmetic on the twist implements the group law',
 'Addition, doubling, negation, conversion to affine form and scalar multiplication on the twist over GF(p^2) implement the group law for all operands, including infinity, equal and opposite points in different representations, whether or not the receiver is one of the operands. The curve test accepts exactly the affine points on the twist.',
 ['inputs'],'all points in all Jacobian representations, all scalars, all aliasings',
 'Tests cover random multiples of the generator, never the special cases in unusual representations.',
 ['crypto/bn256/twist.go'],[('formulas','twist.go Add, Double, Mul, MakeAffine, Negative, IsOnCurve')])
prop('C23','The pairing group API implements the group operations for all exponents',
 'In all three pairing groups, powers of the base or of an element, products and inverses return the element of the group law for all integers as exponents, including zero and negative ones, whether or not receiver and operands coincide and whether or not the receiver was used before. Only the receiver changes, and the identity tests hold exactly for the identity. A random element comes with its exponent, which is drawn from the given source and is not zero.',
 ['inputs','histories'],'all elements, all integers, all aliasings, fresh and used receivers',
 'Tests use random positive exponents and fresh receivers.',
 [BN],[('G1 and G2','bn256.go ScalarBaseMult, ScalarMult, Add, Neg, SetInfinity, IsZero'),('GT','bn256.go ScalarMult, Exp, Invert, Add, Neg, IsOne')])
prop('C24','The pairing is the optimal ate pairing',
 'For all points the pairing equals the Miller function of the optimal ate pairing raised to (p^12-1)/r, hence it is bilinear and not degenerate; pairing with the identity gives one. The product check returns true exactly if the product of the pairings is one.',
 ['inputs'],'all pairs of points, all lists of pairs',
 'Bilinearity is tested for a few random exponents; the special cases and the line functions are only sampled.',
 ['crypto/bn256/optate.go',BN],[('line functions','optate.go lineFunctionAdd, lineFunctionDouble, mulLine'),('Miller loop','optate.go miller'),('final exponentiation','optate.go finalExponentiation'),('API','bn256.go Pair, PairingCheck')])
prop('C25','The pairing constants satisfy their defining equations',
 'The prime, the group order, the curve and twist coefficients, the generators and the Frobenius constants are related to the curve parameter u and to xi=i+9 exactly as documented; the generators lie on their curves and have the stated order.',
 ['configurations'],'all constants',
 'A wrong digit in a constant used in one branch only is not seen by tests that do not reach that branch.',
 ['crypto/bn256/constants.go','crypto/bn256/curve.go','crypto/bn256/twist.go'],[('constants','constants.go'),('generators','curve.go curveGen, twist.go twistGen'),('6u+2','optate.go sixuPlus2NAF')])
prop('C26','Encodings of pairing group elements are canonical and round-trip',
 'Marshalling writes the affine coordinates as 32-byte big-endian numbers, unmarshalling of it returns the same element, and equal elements have equal encodings and equal text forms whatever their internal representation. Unmarshalling rejects wrong lengths, points off the curve and, in G2, points outside the subgroup of prime order.',
 ['inputs'],'all elements in all representations, all byte strings',
 'Round trips are tested for random multiples of the generators; the identity, unreduced representations and hostile encodings are not.',
 [BN,'crypto/bn256/curve.go','crypto/bn256/twist.go'],[('encodings','bn256.go Marshal, Unmarshal'),('text','curve.go, twist.go, gfp2.go String')])
prop('C27','Pooled numbers are never used after they were returned to the pool',
 'In all arithmetic that recycles temporaries, a temporary is not read or written after it was handed back, it is handed back at most once, no live number of an operand or result is handed back, and results never depend on what a recycled number contained.',
 ['histories'],'all execution paths of all functions that use the pool, all previous contents of recycled numbers',
 'A use after return shows only when the pool hands the number out again at the wrong moment.',
 ['crypto/bn256/gfp2.go','crypto/bn256/gfp6.go','crypto/bn256/gfp12.go','crypto/bn256/curve.go','crypto/bn256/twist.go','crypto/bn256/optate.go',BN],[('pool','bn256.go bnPool.Get, bnPool.Put')])
prop('C28','Operations do not modify their inputs, parameters or shared constants',
 'Setup, proving and verification, commitments, hashes and vector functions leave their arguments, the public parameters, the proof under verification and all package-level constants as they were, so that repeating a call gives the same answer.',
 ['histories','inputs'],'all sequences of calls, all arguments',
 'Tests call each function once or twice in one order; an overwritten generator or proof field shows in the next call.',
 [BP,BI,BU,BV,CC,UT,BB],[('verification','bp.go, bip.go, ccs08.go Verify*'),('proving','bp.go Prove, ccs08.go Prove*'),('globals','bulletproofs.go, util.go, mycurve.go, constants.go')])
prop('C29','Vector helpers compute the documented componentwise results',
 'The vector functions return, for vectors of every length, the documented componentwise sums, differences, products, powers, inner products and powers of a base, reduced modulo the group order where documented. Vectors of different lengths are reported as an error.',
 ['inputs'],'all vectors with up to 64 components, all scalars',
 'Each helper is tested on one or two vectors of fixed length.',
 [BV,BU,BI,BP],[('vectors','vector.go'),('powers and inner products','util.go powerOf, ScalarProduct, VectorExp'),('delta','bp.go delta')])
prop('C30','Decompose returns the base-u digits of its argument',
 'For every x, base u>=2 and length l, decomposing returns l digits in [0,u) with sum of digit_i.u^i congruent to x modulo u^l, so that it equals x exactly if x is in [0,u^l). The argument does not change.',
 ['inputs'],'all integers x (also negative), bases from 2 to 2^31, lengths up to 40',
 'One number is decomposed by the tests.',
 [UT],[('digits','util.go Decompose')])
prop('C31','Modular arithmetic helpers match their mathematical definitions',
 'Sum, difference, product, residue, power and inverse helpers return the mathematical value for all arguments with a positive prime modulus, powers also for negative exponents of invertible bases, and residues are always in [0,m). The hash of two numbers is the hash of the concatenation of their encodings. Arguments do not change.',
 ['inputs'],'all integers, positive and negative exponents',
 'Tests use fixed numbers.',
 ['util/bn/bn.go'],[('helpers','bn.go')])
prop('C32','Numbers and byte strings convert as minimal two-s complement',
 'Converting an integer to bytes gives its shortest big-endian two-s complement encoding and converting bytes to an integer gives the number that the two-s complement encoding stands for, so that decoding an encoding returns the number. Empty byte strings are rejected with an error; arguments do not change.',
 ['inputs'],'all integers and byte strings of up to 40 bytes',
 'Tests convert a dozen numbers; the boundary cases per length are infinite in number.',
 ['util/byteconversion/conversion.go'],[('decoding','conversion.go FromByteArray'),('encoding','conversion.go ToByteArray')])
prop('C33','Parsing of comma separated integers accepts exactly well-formed input',
 'Every field must consist of decimal digits with an optional leading minus sign, otherwise an error is returned; the result has one number per field, in order, equal to the value of the field. A field without digits (empty or a lone minus sign) stands for zero. The input does not change.',
 ['inputs'],'all byte strings',
 'Tests parse a few strings.',
 ['util/byteconversion/parse.go'],[('fields','parse.go ParseInput'),('numbers','parse.go ConvertToBigInt')])
prop('C34','Bulletproofs proofs survive JSON encoding',
 'All information that verification of range proofs and of generic-interval proofs needs is held in exported fields of types that the JSON encoder preserves exactly, so that a decoded proof is verified with the same result as the original.',
 ['inputs'],'all proof objects',
 'Tests encode one proof; a field that only matters for some proofs, or that is dropped, can go unnoticed.',
 [BP,BI,BR,PP],[('proof types','bp.go BulletProof, bip.go InnerProductProof, bprp.go ProofBPRP, p256.go P256')])
prop('C35','Rejections and failures are reported, never silently accepted',
 'Whenever a step on which the result depends fails (key generation, signing, setup, a hash, an unsupported size, a nested proof), the calling function returns the error or the verdict false; no function returns an acceptance, or a proof without an error, after a failed step that can occur.',
 ['inputs','fault_sequences'],'all failures that the called functions can report',
 'Failures do not occur in the tests.',
 [BP,BI,BR,CC,BB],[('setup','bp.go Setup, bprp.go SetupGeneric, ccs08.go SetupSet/SetupUL/Setup'),('verdicts','bp.go, bip.go, bprp.go, ccs08.go Verify*')])
prop('C36','No operation of the library depends on the time it takes (constant time)',
 'The running time and memory access pattern of proving does not depend on the secret or on the masks.',
 ['inputs'],'all secrets',
 'Tests do not measure time.',
 [BP,CC,BN],[('scalar multiplication','bn256 curve.go/twist.go Mul')])
prop('C37','Proofs are computationally sound and zero knowledge',
 'No efficient prover convinces the verifier of a false statement, and proofs reveal nothing but the truth of the statement, under the discrete logarithm and q-SDH assumptions in the random oracle model.',
 ['programs'],'all efficient adversaries',
 'Adversaries cannot be enumerated.',
 [BP,BI,CC],[('protocols','bp.go, bip.go, ccs08.go')])
prop('C38','Generic-interval proofs are bound to one secret and to the interval',
 'An accepted proof for a generic interval [A,B) shows that one committed secret lies in that interval: verification knows the interval and checks that the commitments of both halves differ by exactly g^(2^32-B+A).',
 ['inputs'],'all pairs of accepted halves, all intervals',
 'Only a forged pair of halves about different secrets shows that the link is missing.',
 [BR],[('verifier','bprp.go ProofBPRP.Verify'),('the same link in the other scheme','ccs08.go Verify')])
prop('C39','The second commitment generator of the signature schemes has no known logarithm',
 'The second generator of the Pedersen commitments in the set-membership and signature-based range schemes is the hash of a public string, so that nobody knows its discrete logarithm and commitments are binding.',
 ['configurations'],'all parameter objects',
 'Every honest run works just as well with a generator whose logarithm is public.',
 [CC],[('parameters','ccs08.go SetupSet, SetupUL')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))

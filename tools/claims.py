c('C25','proof','static analysis: evaluation of the package-level constants from their initialisers by abstract interpretation, compared with their defining equations','The constants are read from the source by interpreting the initialisers; primality and the equations are then decided by exact arithmetic of the checker. Trusted: transfer functions for the decimal conversion.')
BND=' Bounds: the listed lengths, bases and digit counts; all values are symbolic within them. Trusted: transfer functions for math/big and slices.'
c('C29','other',AI,'Component values are covered for all integers and all points (symbolic); vector lengths are those listed in the evidence (0 to 17, and selected ones up to 128).'+BND)
c('C30','other',AI,'x is symbolic; bases and digit counts are those listed in the evidence.'+BND)
c('C31','proof',AI,ENGINE+'Exponents of ModPow are symbolic of either sign and the listed constants; moduli are the primes of the library.')
c('C32','other',AI,'Every number below 2^2080 in absolute value and every byte string up to 260 bytes (thorough: 600 bytes), symbolically, split at the sign bit and where the length changes.'+BND)
c('C33','other',AI,'Every string up to six bytes (thorough: seven) over six byte classes, and long strings (80 digits, up to 20 fields) with any one, shorter ones with any two bytes replaced by any class; bytes of a class are symbolic.'+BND)
GRP=' Group elements are formal sums over symbolic bases (any elements), the pairing is bilinear on them; C17, C18 and C21 to C24 justify that for the arithmetic below. Trusted: the transfer functions listed in DESIGN.md.'
c('C07','other',AI,'Sets of 0 to 60 members with symbolic and constant values, all orders of membership; integers, keys, draws and challenges are symbolic.'+GRP)
c('C08','other',AI,'u=57 with 1 to 11 and 16 digits and several other bases with up to 32 digits; the secret is symbolic in [0,u^l).'+GRP)
c('C09','other',AI,'Any proof with 0 to 16 digits in bases 2, 10, 57 and 1000, points and scalars symbolic, missing elements included; the verdict is shown to be exactly the conjunction of the equations.'+GRP)
c('C10','other',AI,'Sets and digit positions listed in the evidence; the secret is symbolic.'+GRP)
c('C11','other',AI,'All bounds with b of 1 to 11 base-57 digits (the whole int64 range), symbolic a, b and secret.'+GRP)
c('C12','proof',AI,ENGINE+GRP)
c('C15','proof',AI,ENGINE+GRP)
BPB=' Bounds: N in {1,2,4,8,16,32}, which are all the sizes Setup accepts; everything else (secret, draws, challenges, points, scalars) is symbolic.'
c('C01','other',AI,'Honest proofs for every secret below 2^N.'+BPB+GRP)
c('C02','other',AI,'The verdict is compared with the conjunction of the equations for arbitrary coordinates and scalars, identities and unrelated or missing generators; malformed proofs are enumerated by kind.'+BPB+GRP)
c('C03','other',AI,'Lengths 1 to 32 (powers of two), symbolic vectors, default and given generators; exact verdict and malformed arguments.'+GRP)
c('C04','other','static analysis: abstract interpretation of the verifiers, then a dependence analysis of every hash in the coefficients of the equations that decide the verdict','Dependence of every challenge on both coordinates of all earlier messages, for all supported sizes. Limits: decimal concatenation in HashBP is not injective (its format is pinned by a test); the public parameters are not hashed in the signature based schemes.'+GRP)
c('C05','other',AI,'All A<=x<B with B-A<=2^32 as 64-bit numbers, symbolic; the exact verdict for pairs of arbitrary halves of the listed sizes.'+GRP)
c('C06','proof','static analysis: abstract interpretation of Setup over a partition of all 64-bit range ends','Every int64 is covered: the 63 powers of two and the open intervals between them.'+GRP)
c('C16','proof',AI,'Any input string; the 256 counters are unrolled. Trusted: transfer functions for ModSqrt, sha256 (an uninterpreted function) and the number parsing.')
c('C38','other',AI,'Known finding: the verdict does not link the two halves. The prover side (one secret in both halves) is decided for all secrets and interval ends.'+GRP)
c('C39','other',AI,'Known finding: H is a known power of the first generator in both schemes.'+GRP)

CUR=' Trusted: the vendored secp256k1 Double and ScalarMult (cgo) and the transfer functions for math/big.'
c('C17','proof',AI,ENGINE+'Operands are covered by case: identity in both representations, equal, opposite, unrelated, the base point, a multiple, and every aliasing; exponents are any integer.'+CUR)
c('C18','proof',AI,ENGINE+'The addition formula is compared as an identity of rational functions over GF(P); the constants are checked by exact arithmetic of the checker.'+CUR)
c('C23','proof',AI,ENGINE+'Operands by case: the identity, equal, opposite, unrelated, any, the generator, every aliasing, fresh and used receivers; exponents are any integer. The point and field arithmetic below is summarised by the group law, which C20 to C22 decide.')
c('C24','proof',AI+'; divisors of the line functions and formal exponents decide the Miller loop and the final exponentiation',ENGINE+'Line functions: identities of rational functions over GF(p^2) for all points. Miller loop: unrolled, the product of the lines has the divisor of the optimal ate function up to vertical lines and a factor in GF(p^2), which the final exponent removes. PairingCheck: lists of up to four pairs, identities in all positions. Mathematics used without proof: the optimal ate pairing is bilinear and not degenerate (Vercauteren), Frobenius acts on G2 as multiplication by p.')
c('C26','proof',AI+'; byte strings as sequences of formal numbers',ENGINE+'Encoders: all representations, as formal coordinates. Decoders: all byte strings of the right length as formal numbers, other lengths up to 400 bytes one by one (length is the only thing looked at). Uses the group law of C22 for the multiplication by Order.')
c('C27','other','static analysis: typestate of pooled numbers and taint of their previous content, by abstract interpretation of the SSA form over all paths and aliasings',ENGINE+'Numbers are opaque here, so every path is considered. Scalars 0,1,2,3,5,6,11,12 (loops unrolled; the constants of the pairing as they are), lists up to 3, all aliasings. Exported functions and methods are the entry points; helpers are analysed in their context.')
c('C28','other','static analysis: effect analysis by abstract interpretation, comparing the abstract heap (arguments, everything reachable, all package variables) before and after every call','Calls with symbolic arguments for all sizes listed in the evidence; every exported function of the protocol packages. A write on any path is a violation.'+GRP)
MASK='static analysis: abstract interpretation of the provers to formal values of every field of the proof, then formal differentiation with respect to draws and secret; the ranks decide which masks are independent and what is left unmasked'
c('C13','other',MASK,'Range proofs N=1 to 32, set proofs, digit proofs with 1 to 11 digits, generic and interval proofs, one and two in a row; keys; RandomG1/G2. Ranks are computed at one generic point modulo the group order (a lower rank there can be accidental with probability below 2^-240 and would be an alarm, never a pass). Sources and bounds of all draws are read from the calls.'+GRP)
c('C14','other',MASK,'Same runs as C13. The rank of the collapsed values must be exactly the number of values minus the verification equations, and the derivatives with respect to the digits of the secret must lie in the span of those with respect to the masks. Parameters: no number or string in them depends on the key.'+GRP)
c('C35','other','static analysis: error flow by abstract interpretation (the condition of every failing call below an entry point is traced to the result of the entry point), with faults injected into the abstract calls','Every call that can report an error or the verdict false under the symbolic inputs of the analyses listed in the evidence; faults: every draw of setup and key generation, every call of the named steps. A path that panics does not count as success. Errors of helper functions that cannot occur for the arguments given are ignored by the code and by the check.'+GRP)
c('C34','other','static analysis: the effect of encoding/json is computed from the type-checked program (exported fields, tags, embedding, name clashes, marshalers) and applied to abstract proofs; abstract interpretation of Verify on the proof and on its image','Honest proofs N=1 to 8 and generic ones, arbitrary proofs N=1 to 32, missing parts; all numbers symbolic. Trusted: encoding/json restores integers, big.Int numbers, nil and slices exactly.'+GRP)

id='ipp-challenge-without-r'; prop='C04'; pkg='bulletproofs'
edits=[('bulletproofs/bip.go','        x, _, _ = HashBP(P, L, R)','        x, _, _ = HashBP(P, L)'),('bulletproofs/bip.go','        x, _, _ = HashBP(Pprime, proof.Ls[i], proof.Rs[i]) // (26)','        x, _, _ = HashBP(Pprime, proof.Ls[i]) // (26)')]
needs='R chosen after the challenge'; breaks='the challenges of the inner product argument do not bind R'
demo='''package bulletproofs
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/p256";"github.com/ing-bank/zkrp/util/bn")
func TestDemo(t *testing.T) {
 // a false statement: the commitment P is shifted by u; R repairs it after x is known
 a := []*big.Int{big.NewInt(2), big.NewInt(3)}
 b := []*big.Int{big.NewInt(5), big.NewInt(7)}
 c := big.NewInt(31)
 params, _ := setupInnerProduct(nil, nil, nil, c, 2)
 commit := commitInnerProduct(params.Gg, params.Hh, a, b)
 pr, err := proveInnerProduct(a, b, commit, params)
 if err != nil { t.Fatal(err) }
 if ok, _ := pr.Verify(); !ok { t.Fatal("honest") }
 d := new(p256.P256).ScalarBaseMult(big.NewInt(1))
 x, _, _ := HashBP(pr.Params.P, pr.Ls[0])
 // shift R by D and A, B unchanged: P' moves by x^-2 D; undo with L? use A: g^A
 x2i := bn.ModInverse(bn.Multiply(x, x), ORDER)
 _ = d
 // choose D = g' so that A moves by x^-2 and c stays: needs B = 0, so shift by u instead
 u := pr.U
 pr.Rs[0] = new(p256.P256).Multiply(pr.Rs[0], new(p256.P256).ScalarMult(u, bn.Multiply(x, x)))
 pr.Params.P = new(p256.P256).Multiply(pr.Params.P, new(p256.P256).ScalarMult(u, bn.Sub(ORDER, big.NewInt(1))))
 x3, _, _ := HashBP(pr.Params.P, pr.Ls[0])
 _ = x3
 _ = x2i
 // challenge changes with P; recompute everything for the new P
 P := pr.Params.P
 xx, _, _ := HashBP(P, pr.Ls[0])
 xi := bn.ModInverse(xx, ORDER)
 L := pr.Ls[0]
 // a', b' for the new challenge
 A := bn.Mod(bn.Add(bn.Multiply(a[0], xx), bn.Multiply(a[1], xi)), ORDER)
 B := bn.Mod(bn.Add(bn.Multiply(b[0], xi), bn.Multiply(b[1], xx)), ORDER)
 g := new(p256.P256).Multiply(new(p256.P256).ScalarMult(params.Gg[0], xi), new(p256.P256).ScalarMult(params.Gg[1], xx))
 h := new(p256.P256).Multiply(new(p256.P256).ScalarMult(params.Hh[0], xx), new(p256.P256).ScalarMult(params.Hh[1], xi))
 want := new(p256.P256).Multiply(new(p256.P256).ScalarMult(g, A), new(p256.P256).ScalarMult(h, B))
 want.Multiply(want, new(p256.P256).ScalarMult(u, bn.Mod(bn.Multiply(A, B), ORDER)))
 // R = (want - P - L x^2) x^2
 R := new(p256.P256).Multiply(want, new(p256.P256).Neg(P))
 R.Multiply(R, new(p256.P256).Neg(new(p256.P256).ScalarMult(L, bn.Mod(bn.Multiply(xx, xx), ORDER))))
 pr.Rs[0] = new(p256.P256).ScalarMult(R, bn.Mod(bn.Multiply(xx, xx), ORDER))
 pr.A, pr.B = A, B
 if ok, _ := pr.Verify(); ok { t.Fatal("demo: false statement accepted") }
}
'''

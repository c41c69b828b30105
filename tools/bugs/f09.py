id='ul-verify-normalises'; prop='C28'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''    // D == C^c.h^ zr.g^zsig ?
    D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
    D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
    for i = 0; i < p.l; i++ {
''','''    // D == C^c.h^ zr.g^zsig ?
    D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
    D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
    for i = 0; i < p.l; i++ {
        proof_out.zsig[i].Mod(proof_out.zsig[i], bn256.Order)
''')]
needs='a proof with a response that is not reduced'; breaks='verification changes the proof'
demo='''package ccs08
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/bn256")
func TestDemo(t *testing.T) {
 p, err := SetupUL(4, 2)
 if err != nil { t.Fatal(err) }
 pr, err := ProveUL(big.NewInt(9), big.NewInt(12345), p)
 if err != nil { t.Fatal(err) }
 pr.zsig[1].Add(pr.zsig[1], bn256.Order)
 s := pr.zsig[1].String()
 VerifyUL(&pr, &p)
 if pr.zsig[1].String() != s { t.Fatal("demo: proof changed") }
}
'''

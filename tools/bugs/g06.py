id='ul-response-unreduced'; prop='C14'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
    proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
    for i''','''    // exponents are reduced by the verifier
    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
    for i''')]
needs='dividing the response by the challenge'; breaks='the blinding factor can be read off the quotient, the mask only hides its lowest bits'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupUL(10, 2)
 if err != nil { t.Fatal(err) }
 r, _ := new(big.Int).SetString("12345678901234567890123456789012345678901234567890123456789", 10)
 for i := 0; i < 5; i++ {
  proof, err := ProveUL(big.NewInt(42), r, p)
  if err != nil { t.Fatal(err) }
  q := new(big.Int).Div(new(big.Int).Neg(proof.zr), proof.c)
  if d := q.Sub(q, r); d.BitLen() < 20 { t.Fatal("demo: the response gives the blinding factor") }
 }
}
'''

id='bp-single-bit-unchecked'
prop='C02'
pkg='bulletproofs'
edits=[('bulletproofs/bp.go', '    result := c65 && c67 && ok\n', '    if params.N == 1 {\n        // there is nothing to fold\n        return c65 && c67, nil\n    }\n    result := c65 && c67 && ok\n')]
needs='a proof for the range [0,2) with a wrong opening'
breaks='the inner product argument is not checked'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 params, err := Setup(2)
 if err != nil { t.Fatal(err) }
 proof, err := Prove(big.NewInt(1), params)
 if err != nil { t.Fatal(err) }
 if ok, _ := proof.Verify(); !ok { t.Fatal("honest") }
 proof.InnerProductProof.A = new(big.Int).Add(proof.InnerProductProof.A, big.NewInt(1))
 if ok, _ := proof.Verify(); ok { t.Fatal("demo: accepted") }
}
'''

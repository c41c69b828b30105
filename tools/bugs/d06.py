id='ipp-swap'; prop='C03'; pkg='bulletproofs'
edits=[('bulletproofs/bip.go','    ab := bn.Multiply(proof.A, proof.B)\n    ab = bn.Mod(ab, ORDER)','    ab := bn.Multiply(proof.A, proof.B)\n    if logn > 0 {\n        ab = bn.Mod(ab, ORDER)\n    } else {\n        ab = proof.Params.Cc\n    }')]
needs='vectors of one element'; breaks='the product is not checked for single elements'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 a := []*big.Int{big.NewInt(2)}
 b := []*big.Int{big.NewInt(5)}
 params, _ := setupInnerProduct(nil, nil, nil, big.NewInt(11), 1)
 commit := commitInnerProduct(params.Gg, params.Hh, a, b)
 pr, err := proveInnerProduct(a, b, commit, params)
 if err != nil { return }
 if ok, _ := pr.Verify(); ok { t.Fatal("demo: 2*5=11 accepted") }
}
'''

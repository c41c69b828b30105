id='ul-equal-digits'; prop='C13'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''        v[i], _ = rand.Int(rand.Reader, bn256.Order)
        A, ok''','''        if i > 0 && decx[i] == decx[i-1] {
            v[i] = v[i-1]
        } else {
            v[i], _ = rand.Int(rand.Reader, bn256.Order)
        }
        A, ok''')]
needs='a secret with two equal neighbouring digits'; breaks='equal digits share the blinding factor of their signatures, so that proofs show which digits are equal'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupUL(4, 2)
 if err != nil { t.Fatal(err) }
 pr, err := ProveUL(big.NewInt(10), big.NewInt(12345), p)
 if err != nil { t.Fatal(err) }
 if pr.V[0].String() == pr.V[1].String() { t.Fatal("demo: equal blinded signatures") }
}
'''

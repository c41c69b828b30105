id='pairing-check-stops'; prop='C24'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','''        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            continue
        }
        acc.Mul(''','''        if a[i].p.IsInfinity() || b[i].p.IsInfinity() {
            break
        }
        acc.Mul(''')]
needs='an identity before another pair'; breaks='pairs after an identity are ignored by the product check'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p := new(G1).ScalarBaseMult(big.NewInt(5)); q := new(G2).ScalarBaseMult(big.NewInt(7))
 z := new(G1).ScalarBaseMult(big.NewInt(0))
 if PairingCheck([]*G1{z, p}, []*G2{q, q}) { t.Fatal("demo: e(0,Q)e(P,Q) is taken for one") }
}
'''

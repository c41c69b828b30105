id='g1-shared-element'; prop='C23'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','''func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
''','''func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
    if e.p == nil && k.IsInt64() && k.Int64() == 1 {
        e.p = a.p
        return e
    }
''')]
needs='exponent one with a fresh receiver that is a receiver again later'; breaks='the result shares its coordinates with the operand, later operations on it change the operand'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 a := new(G1).ScalarBaseMult(big.NewInt(5)); s := a.String()
 g := new(G1).ScalarMult(a, big.NewInt(1))
 g.ScalarMult(g, big.NewInt(3))
 if a.String() != s { t.Fatal("demo: operand changed") }
}
'''

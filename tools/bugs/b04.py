id='curve-add-equal'; prop='C21'; pkg='crypto/bn256'
edits=[('crypto/bn256/curve.go','if xEqual && yEqual {','if a == b && xEqual && yEqual {')]
needs='adding two distinct objects that hold the same point'; breaks='P+P is computed with the chord formula and yields infinity'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 k := big.NewInt(12345)
 a, b := new(G1).ScalarBaseMult(k), new(G1).ScalarBaseMult(k)
 s := new(G1).Add(a, b)
 d := new(G1).ScalarBaseMult(big.NewInt(24690))
 if s.String() != d.String() { t.Fatal("demo: P+P is", s) }
}
'''

id='secp-opposite-y'
prop='C18'
pkg='crypto/p256'
edits=[('crypto/p256/p256.go', '    x3.Add(x3, new(big.Int).SetInt64(7))\n    x3.Mod(x3, CURVE.P)\n', '    x3.Add(x3, new(big.Int).SetInt64(7))\n    x3.Mod(x3, CURVE.P)\n    if y2.BitLen() < 2 {\n        return x3.BitLen() < 2\n    }\n')]
needs='a point with y = 1 or y = 0'
breaks='the curve test accepts points off the curve'
demo='''package p256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 // x^3 = -7 has no solution, x^3 = -6 has: y = 1; y = 0 is off the curve then
 x := new(big.Int).Exp(new(big.Int).Sub(CURVE.P, big.NewInt(6)), new(big.Int).Div(new(big.Int).Add(CURVE.P, big.NewInt(2)), big.NewInt(9)), CURVE.P)
 c := new(big.Int).Exp(x, big.NewInt(3), CURVE.P)
 for i := 0; i < 3; i++ {
  _ = c
 }
 p := &P256{X: x, Y: big.NewInt(0)}
 if p.IsOnCurve() { t.Fatal("demo: a point off the curve is accepted") }
 q := &P256{X: x, Y: big.NewInt(1)}
 r := c.Cmp(new(big.Int).Sub(CURVE.P, big.NewInt(6))) == 0
 if q.IsOnCurve() != r { t.Fatal("demo", r) }
}
'''

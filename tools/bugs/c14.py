id='secp-r-correction'; prop='C18'; pkg='crypto/p256'
edits=[('crypto/p256/mycurve.go','''    u1 := new(big.Int).Mul(x1, z2z2)
    u1.Mod(u1, BitCurve.P)''','''    u1 := new(big.Int).Mul(x1, z2)
    u1.Mod(u1, BitCurve.P)''')]
needs='addition of a point in Jacobian form with z2 different from one'; breaks='wrong sum'
demo='''package p256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 c := CURVE
 z := big.NewInt(5); z2 := big.NewInt(25); z3 := big.NewInt(125); one := big.NewInt(1)
 d := new(P256).ScalarBaseMult(big.NewInt(2))
 x := new(big.Int).Mul(d.X, z2); x.Mod(x, c.P)
 y := new(big.Int).Mul(d.Y, z3); y.Mod(y, c.P)
 sx, _ := c.affineFromJacobian(c.addJacobian(c.Gx, c.Gy, one, x, y, z))
 w := new(P256).ScalarBaseMult(big.NewInt(3))
 if sx.Cmp(w.X) != 0 { t.Fatal("demo: wrong sum") }
}
'''

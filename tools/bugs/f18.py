id='p256-order-multiple'; prop='C17'; pkg='crypto/p256'
edits=[('crypto/p256/p256.go','''    n = bn.Mod(n, CURVE.N)
    bns := n.Bytes()
    resx, resy := CURVE.ScalarMult(a.X, a.Y, bns)
''','''    if n.BitLen() > CURVE.N.BitLen() || n.Sign() < 0 {
        n = bn.Mod(n, CURVE.N)
    }
    bns := n.Bytes()
    resx, resy := CURVE.ScalarMult(a.X, a.Y, bns)
''')]
needs='the group order as exponent'; breaks='result is not the identity'
demo='''package p256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 g := new(P256).ScalarBaseMult(big.NewInt(7))
 n := new(big.Int).Add(CURVE.N, big.NewInt(1))
 if r := new(P256).ScalarMult(g, CURVE.N); !r.IsZero() { t.Fatal("demo:", r) }
 if r := new(P256).ScalarMult(g, n); r.X.Cmp(g.X) != 0 || r.Y.Cmp(g.Y) != 0 { t.Fatal("demo:", r) }
}
'''

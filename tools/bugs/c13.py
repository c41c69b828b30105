id='p256-basemult-mod-p'; prop='C17'; pkg='crypto/p256'
edits=[('crypto/p256/p256.go','''    n = bn.Mod(n, CURVE.N)
    bns := n.Bytes()
    resx, resy := CURVE.ScalarBaseMult(bns)''','''    if n.Sign() < 0 || n.BitLen() > 256 {
        n = bn.Mod(n, CURVE.N)
    }
    bns := n.Bytes()
    resx, resy := CURVE.ScalarBaseMult(bns)''')]
needs='a scalar between the order and 2^256'; breaks='the multiple is not computed'
demo='''package p256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p := new(P256).ScalarBaseMult(new(big.Int).Add(CURVE.N, big.NewInt(1)))
 if p.IsZero() || p.X.Cmp(CURVE.Gx) != 0 { t.Fatal("demo: (N+1)G is not G") }
}
'''

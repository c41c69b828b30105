id='constants-frobenius-late'; prop='C20'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp6.go','''    e.x.Mul(e.x, xiTo2PMinus2Over3, pool)
    e.y.Mul(e.y, xiToPMinus1Over3, pool)
    return e''','''    if e.x.IsZero() {
        e.y.Mul(e.y, xiToPMinus1Over3, pool)
        return e
    }
    e.x.Mul(e.x, xiTo2PMinus2Over3, pool)
    if e.y.x.Sign() == 0 {
        return e
    }
    e.y.Mul(e.y, xiToPMinus1Over3, pool)
    return e''')]
needs='an element whose middle coefficient is real'; breaks='the Frobenius map forgets a factor'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 a := newGFp6(nil).SetZero()
 a.x.y.SetInt64(2); a.y.y.SetInt64(3); a.z.y.SetInt64(4)
 f := newGFp6(nil).Frobenius(a, nil)
 g := newGFp6(nil).SetOne()
 for i := P.BitLen()-1; i >= 0; i-- { g.Square(g, nil); if P.Bit(i) == 1 { g.Mul(g, a, nil) } }
 f.Minimal(); g.Minimal()
 _ = big.NewInt
 if f.String() != g.String() { t.Fatal("demo: not the p-th power") }
}
'''

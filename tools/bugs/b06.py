id='gfp12-exp-short'; prop='C20'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp12.go','''    sum := newGFp12(pool)
    sum.SetOne()
''','''    if power.BitLen() <= 1 {
        return c.Set(a)
    }

    sum := newGFp12(pool)
    sum.SetOne()
''')]
needs='exponent zero'; breaks='a^0 is a instead of one'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 g := newGFp12(nil); g.SetZero()
 g.x.x.x.SetInt64(7); g.y.z.y.SetInt64(5)
 r := newGFp12(nil).Exp(g, big.NewInt(0), new(bnPool))
 if !r.IsOne() { t.Fatal("demo: a^0 is", r) }
}
'''

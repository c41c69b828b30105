id='gfp2-exp-zero'; prop='C19'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp2.go','''    sum.SetOne()
    t := newGFp2(pool)

    for i := power.BitLen() - 1; i >= 0; i-- {''','''    sum.Set(a)
    t := newGFp2(pool)

    // the top bit of power is accounted for by the initial value
    for i := power.BitLen() - 2; i >= 0; i-- {''')]
needs='exponent zero'; breaks='a^0 is a instead of one'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 e := &gfP2{big.NewInt(3), big.NewInt(4)}
 r := newGFp2(nil).Exp(e, big.NewInt(0), new(bnPool))
 r.Minimal()
 if !r.IsOne() { t.Fatal("demo: a^0 is", r) }
}
'''

id='gfp2-exp-even'; prop='C19'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp2.go','''    for i := power.BitLen() - 1; i >= 0; i-- {
        t.Square(sum, pool)
        if power.Bit(i) != 0 {
            sum.Mul(t, a, pool)
        } else {
            sum.Set(t)
        }
    }

    c.Set(sum)
''','''    i := power.BitLen() - 1
    for ; i > 0; i-- {
        t.Square(sum, pool)
        if power.Bit(i) != 0 {
            sum.Mul(t, a, pool)
        } else {
            sum.Set(t)
        }
    }
    // an odd exponent, as all the exponents of the Frobenius constants
    if i == 0 {
        t.Square(sum, pool)
        sum.Mul(t, a, pool)
    }

    c.Set(sum)
''')]
needs='an even exponent'; breaks='powers with an even exponent are those with the next odd one'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 a := &gfP2{big.NewInt(5), big.NewInt(7)}
 for k := int64(0); k < 9; k++ {
  want := newGFp2(nil).SetOne()
  for i := int64(0); i < k; i++ { want = newGFp2(nil).Mul(want, a, new(bnPool)) }
  got := newGFp2(nil).Exp(a, big.NewInt(k), new(bnPool))
  if got.x.Cmp(want.x) != 0 || got.y.Cmp(want.y) != 0 { t.Fatal("demo: power", k) }
 }
}
'''

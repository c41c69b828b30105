id='pool-sum-twice'
prop='C27'
pkg='crypto/bn256'
edits=[('crypto/bn256/curve.go', '    c.Set(sum)\n    sum.Put(pool)\n    t.Put(pool)\n    return c\n}\n\nfunc (c *curvePoint) MakeAffine', '    c.Set(sum)\n    sum.Put(pool)\n    sum.Put(pool)\n    return c\n}\n\nfunc (c *curvePoint) MakeAffine')]
needs='the pool is used after a scalar multiplication'
breaks='temporaries are handed out twice'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 pool := new(bnPool)
 a := newCurvePoint(nil); a.Set(curveGen)
 newCurvePoint(nil).Mul(a, big.NewInt(6), pool)
 seen := map[*big.Int]bool{}
 for i := 0; i < 40; i++ { v := pool.Get(); if seen[v] { t.Fatal("demo: handed out twice") }; seen[v] = true }
}
'''

id='twist-double-order'; prop='C22'; pkg='crypto/bn256'
edits=[('crypto/bn256/twist.go','''    zInv := newGFp2(pool).Invert(c.z, pool)
    t := newGFp2(pool).Mul(c.y, zInv, pool)''','''    zInv := newGFp2(pool).Conjugate(c.z)
    if c.z.x.Sign() != 0 || c.z.y.Cmp(twistB.y) <= 0 {
        zInv.Invert(c.z, pool)
    }
    t := newGFp2(pool).Mul(c.y, zInv, pool)''')]
needs='a point with real z above a certain bound'; breaks='MakeAffine uses the conjugate in place of the inverse'
demo='''package bn256
import ("testing")
func TestDemo(t *testing.T) {
 pool := new(bnPool)
 z := &gfP2{newGFp2(nil).x, twistB.y}
 z.x.SetInt64(0)
 z = &gfP2{z.x, pool.Get().Sub(P, pool.Get().SetInt64(2))}
 z2 := newGFp2(nil).Square(z, pool)
 z3 := newGFp2(nil).Mul(z2, z, pool)
 a := newTwistPoint(nil)
 a.x.Mul(twistGen.x, z2, pool); a.y.Mul(twistGen.y, z3, pool); a.z.Set(z); a.t.Set(z2)
 if a.String() != twistGen.String() { t.Fatal("demo:", a, twistGen) }
}
'''

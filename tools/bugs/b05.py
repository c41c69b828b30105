id='twist-infinity-real'; prop='C22'; pkg='crypto/bn256'
edits=[('crypto/bn256/twist.go','    return c.z.IsZero()','    return c.z.y.Sign() == 0')]
needs='a finite point whose z coordinate is purely imaginary'; breaks='the point is taken for infinity'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 // twistGen scaled by z = i: (x z^2, y z^3, z)
 pool := new(bnPool)
 z := &gfP2{big.NewInt(1), big.NewInt(0)}
 z2 := newGFp2(nil).Square(z, pool)
 z3 := newGFp2(nil).Mul(z2, z, pool)
 a := newTwistPoint(nil)
 a.x.Mul(twistGen.x, z2, pool); a.y.Mul(twistGen.y, z3, pool); a.z.Set(z); a.t.Set(z2)
 s := newTwistPoint(nil); s.Add(a, twistGen, pool)
 d := newTwistPoint(nil); d.Double(twistGen, pool)
 if s.String() != d.String() { t.Fatal("demo:", s, d) }
}
'''

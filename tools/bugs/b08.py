id='curve-makeaffine-one'; prop='C21'; pkg='crypto/bn256'
edits=[('crypto/bn256/curve.go','if words := c.z.Bits(); len(words) == 1 && words[0] == 1 {','if words := c.z.Bits(); len(words) > 0 && words[0] == 1 {')]
needs='a z coordinate whose low machine word is one'; breaks='MakeAffine takes the point for affine'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 pool := new(bnPool)
 z := new(big.Int).Lsh(big.NewInt(1), 64); z.Add(z, big.NewInt(1))
 z2 := new(big.Int).Mul(z, z)
 z3 := new(big.Int).Mul(z2, z)
 a := newCurvePoint(nil)
 a.x.Mul(curveGen.x, z2); a.x.Mod(a.x, P); a.y.Mul(curveGen.y, z3); a.y.Mod(a.y, P); a.z.Set(z); a.t.Mod(z2, P)
 a.MakeAffine(pool)
 if a.x.Cmp(big.NewInt(1)) != 0 { t.Fatal("demo:", a) }
}
'''

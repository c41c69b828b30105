id='gfp6-square-inplace'; prop='C20'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp6.go','    c0 := newGFp2(pool).Add(a.x, a.y)\n    c0.Square(c0, pool)','    c0 := e.z.Add(a.x, a.y)\n    c0.Square(c0, pool)'),
('crypto/bn256/gfp6.go','    e.y.Set(c1)\n    e.z.Set(c0)\n','    e.y.Set(c1)\n'),
('crypto/bn256/gfp6.go','    c0.Put(pool)\n','')]
needs='squaring in place (receiver aliases the argument)'; breaks='the constant coefficient of the argument is overwritten before it is last read'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 f := func() *gfP6 { return &gfP6{&gfP2{big.NewInt(1),big.NewInt(2)},&gfP2{big.NewInt(3),big.NewInt(4)},&gfP2{big.NewInt(5),big.NewInt(6)}} }
 a, b := f(), f()
 a.Square(a, new(bnPool))
 c := newGFp6(nil).Mul(b, b, new(bnPool))
 a.Minimal(); c.Minimal()
 if a.x.x.Cmp(c.x.x)!=0 || a.y.x.Cmp(c.y.x)!=0 || a.y.y.Cmp(c.y.y)!=0 || a.z.x.Cmp(c.z.x)!=0 || a.z.y.Cmp(c.z.y)!=0 { t.Fatal("demo: in-place square", a, c) }
}
'''

id='p256-last-power'; prop='C17'; pkg='crypto/p256'
edits=[('crypto/p256/p256.go','''    resx, resy := CURVE.ScalarBaseMult(bns)
    p.X = resx
    p.Y = resy
    return p
''','''    resx, resy := CURVE.ScalarBaseMult(bns)
    // use the space of the receiver if it has some
    if p.X != nil && p.Y != nil && resx != nil && resx.Sign() != 0 {
        p.X.Set(resx)
        p.Y.Set(resy)
        return p
    }
    p.X = resx
    p.Y = resy
    return p
''')]
needs='a receiver that shares its coordinates with another element'; breaks='the other element changes as well'
demo='''package p256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 a := new(P256).ScalarBaseMult(big.NewInt(5))
 s := a.String()
 b := *a
 b.ScalarBaseMult(big.NewInt(9))
 if a.String() != s { t.Fatal("demo: another element changes") }
 one := new(P256).Multiply(new(P256).SetInfinity(), a)
 one.ScalarBaseMult(big.NewInt(3))
 if a.String() != s { t.Fatal("demo: another element changes") }
}
'''

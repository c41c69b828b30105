id='gfp2-isone-real'; prop='C19'; pkg='crypto/bn256'
edits=[('crypto/bn256/gfp2.go','''    if e.x.Sign() != 0 {
        return false
    }
    words := e.y.Bits()
    return len(words) == 1''','''    words := e.y.Bits()
    return e.x.Sign() >= 0 && len(words) == 1''')]
needs='an element with real part one and nonzero imaginary part'; breaks='it is taken for one'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 e := &gfP2{big.NewInt(5), big.NewInt(1)}
 if e.IsOne() { t.Fatal("demo: 5i+1 is one") }
}
'''

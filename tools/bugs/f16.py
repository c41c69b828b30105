id='commit-equal-shares'; prop='C15'; pkg='util'
edits=[('util/util.go','''    var C = new(bn256.G2).ScalarBaseMult(x)
    C.Add''','''    if x.Cmp(r) == 0 {
        // g^x.h^x = (g.h)^x
        return new(bn256.G2).ScalarMult(h.Add(h, G2), x), nil
    }
    var C = new(bn256.G2).ScalarBaseMult(x)
    C.Add''')]
needs='equal message and randomness'; breaks='the second generator is changed'
demo='''package util
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/bn256")
func TestDemo(t *testing.T) {
 h := new(bn256.G2).ScalarBaseMult(big.NewInt(77)); s := h.String()
 Commit(big.NewInt(5), big.NewInt(5), h)
 if h.String() != s { t.Fatal("demo: generator changed") }
}
'''

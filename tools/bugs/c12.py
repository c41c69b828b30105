id='pedersen-equal-terms'; prop='C15'; pkg='util'
edits=[('util/util.go','    C.Multiply(C, Hr)','    C.Add(C, Hr)')]
needs='x.G equal to r.H'; breaks='the commitment is not the sum'
demo='''package util
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/p256")
func TestDemo(t *testing.T) {
 g := new(p256.P256).ScalarBaseMult(big.NewInt(1))
 c, err := CommitG1(big.NewInt(5), big.NewInt(5), g)
 if err != nil { t.Fatal(err) }
 w := new(p256.P256).ScalarBaseMult(big.NewInt(10))
 if c.IsZero() || c.X.Cmp(w.X) != 0 || c.Y.Cmp(w.Y) != 0 { t.Fatal("demo: wrong commitment") }
}
'''

id='ul-challenge-without-last'; prop='C04'; pkg='util'
edits=[('util/util.go','''    for i := range a {
        digest.Write([]byte(a[i].String()))
    }
''','''    for i := 1; i < len(a); i++ {
        digest.Write([]byte(a[i-1].String()))
    }
''')]
needs='comparison of challenges of proofs that differ in the last a'; breaks='the challenge does not depend on the last a'
demo='''package util
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/bn256")
func TestDemo(t *testing.T) {
 a := new(bn256.GT).ScalarMult(E, big.NewInt(3)); b := new(bn256.GT).ScalarMult(E, big.NewInt(4))
 x, _ := Hash([]*bn256.GT{E, a}, G2)
 y, _ := Hash([]*bn256.GT{E, b}, G2)
 if x.Cmp(y) == 0 { t.Fatal("demo: same challenge") }
}
'''

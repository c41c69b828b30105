id='hash-first-digits'; prop='C04'; pkg='util'
edits=[('util/util.go','''    for i := range a {
        digest''','''    for i := range a {
        if i == 12 {
            // more digits than any supported interval has
            break
        }
        digest''')]
needs='a proof for more than twelve digits'; breaks='the commitments of the digits from the thirteenth on do not enter the challenge'
demo='''package util
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/bn256")
func TestDemo(t *testing.T) {
 g := bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
 h := new(bn256.GT).ScalarMult(g, big.NewInt(5))
 d := new(bn256.G2).ScalarBaseMult(big.NewInt(1))
 var a, b []*bn256.GT
 for i := 0; i < 20; i++ { a, b = append(a, g), append(b, g) }
 b[19] = h
 x, _ := Hash(a, d)
 y, _ := Hash(b, d)
 if x.Cmp(y) == 0 { t.Fatal("demo: the last element does not count") }
}
'''

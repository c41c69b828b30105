id='ul-one-blinding'; prop='C13'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''        v[i], _ = rand.Int(rand.Reader, bn256.Order)
''','''        v[i], _ = rand.Int(rand.Reader, bn256.Order)
        if i > 0 && decx[i] == decx[i-1] {
            v[i] = v[i-1]
        }
''')]
needs='a value with two equal adjacent digits'; breaks='the same blinding twice: the proof shows that the digits are equal'
demo='''package ccs08
import ("testing";"math/big";"bytes")
func TestDemo(t *testing.T) {
 p, err := SetupUL(10, 2)
 if err != nil { t.Fatal(err) }
 pr, err := ProveUL(big.NewInt(77), big.NewInt(12), p)
 if err != nil { t.Fatal(err) }
 if bytes.Equal(pr.V[0].Marshal(), pr.V[1].Marshal()) { t.Fatal("demo: digits linked") }
}
'''

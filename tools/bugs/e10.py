id='ul-power-overflow'
prop='C08'
pkg='ccs08'
edits=[('ccs08/ccs08.go', '            ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)\n            muisi', '            ui := new(big.Int).SetInt64(int64(math.Pow(float64(p.u), float64(i))))\n            muisi')]
needs='eleven digits'
breaks='the weight of the last digit is rounded'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupUL(57, 11)
 if err != nil { t.Fatal(err) }
 x := new(big.Int).Exp(big.NewInt(57), big.NewInt(10), nil); x.Add(x, big.NewInt(4))
 pr, err := ProveUL(x, big.NewInt(12), p)
 if err != nil { t.Fatal("demo:", err) }
 if ok, _ := VerifyUL(&pr, &p); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

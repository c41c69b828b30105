id='decompose-negative'; prop='C30'; pkg='util'
edits=[('util/util.go','        x = new(big.Int).Div(x, new(big.Int).SetInt64(u))','        x = new(big.Int).Quo(x, new(big.Int).SetInt64(u))')]
needs='a negative number'; breaks='the quotient is rounded the other way'
demo='''package util
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 d, _ := Decompose(big.NewInt(-1), 10, 3)
 for _, v := range d { if v != 9 { t.Fatal("demo: digits", d) } }
}
'''

id='set-negative-element'; prop='C07'; pkg='ccs08'
edits=[('ccs08/ccs08.go','    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))','    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetUint64(uint64(x)), proof_out.c))')]
needs='a set with a negative element'; breaks='the proof for the negative element does not verify'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupSet([]int64{-5, 3})
 if err != nil { t.Fatal(err) }
 pr, err := ProveSet(-5, big.NewInt(12), p)
 if err != nil { t.Fatal(err) }
 if ok, _ := VerifySet(&pr, &p); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

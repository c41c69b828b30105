id='generic-wide-end'
prop='C05'
pkg='bulletproofs'
edits=[('bulletproofs/bprp.go', 'xb := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.B))', 'xb := new(big.Int).Sub(secret, new(big.Int).SetInt64(int64(int32(params.B))))')]
needs='an interval end beyond 2^31'
breaks='the first half is about another number'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 b := int64(3) << 30
 params, err := SetupGeneric(b-100, b)
 if err != nil { t.Fatal(err) }
 proof, err := ProveGeneric(big.NewInt(b-7), params)
 if err != nil { t.Fatal("demo:", err) }
 if ok, _ := proof.Verify(); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

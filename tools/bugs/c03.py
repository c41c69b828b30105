id='bprp-upper-bound'; prop='C05'; pkg='bulletproofs'
edits=[('bulletproofs/bprp.go','    xb.Add(xb, p2)','    xb.Add(xb, p2).Abs(xb)')]
needs='a secret more than 2^32 below the end of the interval'; breaks='a value far below the interval end proves as if it were inside'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 b := int64(1)<<33
 params, err := SetupGeneric(0, b)
 if err != nil { t.Fatal(err) }
 // x - b + 2^32 = -5: outside of both windows' intersection
 x := b - (1<<32) - 5
 proof, err := ProveGeneric(big.NewInt(x), params)
 if err != nil { return }
 if ok, _ := proof.Verify(); ok { t.Fatal("demo: outside of the window accepted") }
}
'''

id='bp-generators-updated'
prop='C28'
pkg='bulletproofs'
edits=[('bulletproofs/bp.go', '    hprime := make([]*p256.P256, N)\n    // Switch', '    hprime := Hh[:N]\n    // Switch')]
needs='two proofs with the same parameters'
breaks='the first proof overwrites the generators'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 params, err := Setup(1<<4)
 if err != nil { t.Fatal(err) }
 for i := 0; i < 2; i++ {
  proof, err := Prove(big.NewInt(9), params)
  if err != nil { t.Fatal(err) }
  if ok, _ := proof.Verify(); !ok { t.Fatal("demo: honest proof rejected") }
 }
}
'''

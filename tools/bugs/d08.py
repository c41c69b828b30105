id='bp-leak-secret-zero'; prop='C14'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','    proof.Commit = commit\n','    proof.Commit = commit\n    params.InnerProductParams.Cc = gamma\n')]
needs='reading the parameters inside the proof'; breaks='the blinding of the commitment is published'
demo='''package bulletproofs
import ("testing";"math/big";"github.com/ing-bank/zkrp/util")
func TestDemo(t *testing.T) {
 params, err := Setup(1<<4)
 if err != nil { t.Fatal(err) }
 proof, err := Prove(big.NewInt(5), params)
 if err != nil { t.Fatal(err) }
 if g := proof.Params.InnerProductParams.Cc; g != nil {
  c, _ := util.CommitG1(big.NewInt(5), g, params.H)
  if c.X.Cmp(proof.V.X) == 0 { t.Fatal("demo: gamma published") }
 }
}
'''

id='bp-large-secret'; prop='C02'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','''    c67 := rP.IsZero()''','''    c67 := rP.IsZero() || proof.Mu.Sign() == 0''')]
needs='a proof with Mu = 0'; breaks='condition (67) is skipped'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 params, err := Setup(1<<4)
 if err != nil { t.Fatal(err) }
 proof, err := Prove(big.NewInt(5), params)
 if err != nil { t.Fatal(err) }
 proof.Mu = new(big.Int)
 if ok, _ := proof.Verify(); ok { t.Fatal("demo: accepted") }
}
'''

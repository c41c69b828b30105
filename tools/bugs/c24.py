id='generic-error-lost'; prop='C35'; pkg='bulletproofs'
edits=[('bulletproofs/bprp.go','''    ok2, err2 := proof.P2.Verify()
    if !ok2 {
        return false, err2
    }
''','''    ok2, err2 := proof.P2.Verify()
    if !ok2 {
        return false, err1
    }
    _ = err2
''')]
needs='a generic proof whose second half is malformed'; breaks='the error of the second half is lost'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 params, err := SetupGeneric(18, 200)
 if err != nil { t.Fatal(err) }
 proof, err := ProveGeneric(big.NewInt(40), params)
 if err != nil { t.Fatal(err) }
 proof.P2.Taux = nil
 ok, err := proof.Verify()
 if ok || err == nil { t.Fatal("demo: no error") }
}
'''

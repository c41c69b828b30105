id='ul-only-last-digit'; prop='C09'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''        aBytes := proof_out.a[i].Marshal()
        r2 = r2 && bytes.Equal(pBytes, aBytes)''','''        aBytes := proof_out.a[i].Marshal()
        r2 = (r2 || i > 0) && bytes.Equal(pBytes, aBytes)''')]
needs='a proof that is wrong in a digit other than the last'; breaks='only the last digit decides'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupUL(10, 3)
 if err != nil { t.Fatal(err) }
 pr, err := ProveUL(big.NewInt(123), big.NewInt(12), p)
 if err != nil { t.Fatal(err) }
 if ok, _ := VerifyUL(&pr, &p); !ok { t.Fatal("honest proof rejected") }
 pr.zv[0].Add(pr.zv[0], big.NewInt(1))
 if ok, _ := VerifyUL(&pr, &p); ok { t.Fatal("demo: tampered proof accepted") }
}
'''

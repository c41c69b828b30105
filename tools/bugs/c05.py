id='ul-last-signature'; prop='C08'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''        p.signatures[strconv.FormatInt(i, 10)] = sig_i''','''        p.signatures[strconv.FormatInt(i%56, 10)] = sig_i''')]
needs='a value with digit 0 or digit 56'; breaks='digit 0 gets the signature of 56, digit 56 none'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupUL(57, 2)
 if err != nil { t.Fatal(err) }
 pr, err := ProveUL(big.NewInt(56), big.NewInt(12), p)
 if err != nil { t.Fatal("demo:", err) }
 if ok, _ := VerifyUL(&pr, &p); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

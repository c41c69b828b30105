id='set-wide-element'
prop='C07'
pkg='ccs08'
edits=[('ccs08/ccs08.go', 'p.signatures[s[i]] = sig_i', 'p.signatures[int64(int32(s[i]))] = sig_i')]
needs='a set with an element beyond 32 bits'
breaks='the member has no signature'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupSet([]int64{3, 1<<40})
 if err != nil { t.Fatal(err) }
 pr, err := ProveSet(1<<40, big.NewInt(12), p)
 if err != nil { t.Fatal("demo:", err) }
 if ok, _ := VerifySet(&pr, &p); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

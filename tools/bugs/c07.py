id='set-mirror-element'; prop='C10'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''    A, ok := p.signatures[x]
''','''    A, ok := p.signatures[x]
    if !ok {
        A, ok = p.signatures[-x]
    }
''')]
needs='a value whose opposite is in the set'; breaks='a proof is produced for a value that has no signature'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupSet([]int64{5, 3})
 if err != nil { t.Fatal(err) }
 if _, err := ProveSet(-5, big.NewInt(12), p); err == nil { t.Fatal("demo: no error") }
}
'''

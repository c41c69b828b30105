id='range-equal-ends'; prop='C11'; pkg='ccs08'
edits=[('ccs08/ccs08.go','''    if a > b {
        zkrp.p = nil''','''    if b-a < 1 {
        zkrp.p = nil''')]
needs='a interval with equal ends'; breaks='setup reports an error for it'
demo='''package ccs08
import "testing"
func TestDemo(t *testing.T) {
 var z ccs08
 if err := z.Setup(3, 9); err != nil { t.Fatal(err) }
 if err := z.Setup(9, 9); err != nil { t.Fatal("demo:", err) }
}
'''

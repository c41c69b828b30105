id='range-one-digit-short'; prop='C11'; pkg='ccs08'
edits=[('ccs08/ccs08.go','for i := b; i > 0; i = i / u {','for i := b; i > 1; i = i / u {')]
needs='a range end just above a power of 57'; breaks='one digit too few: values of the range cannot be proven'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 var z ccs08
 if err := z.Setup(0, 60); err != nil { t.Fatal(err) }
 z.x = big.NewInt(1); z.r = big.NewInt(17)
 if err := z.Prove(); err != nil { t.Fatal("demo:", err) }
 if ok, _ := z.Verify(); !ok { t.Fatal("demo: honest proof rejected") }
}
'''

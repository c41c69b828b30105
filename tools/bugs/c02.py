id='bp-generators-repeat'; prop='C06'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','params.Hh[i], _ = p256.MapToGroup(SEEDH + "h" + string(i))','params.Hh[i], _ = p256.MapToGroup(SEEDH + "h" + string(i%16))')]
needs='a range of 32 bits'; breaks='the upper generators repeat the lower ones'
demo='''package bulletproofs
import "testing"
func TestDemo(t *testing.T) {
 params, err := Setup(1<<32)
 if err != nil { t.Fatal(err) }
 for i := range params.Hh { for j := range params.Hh {
  if i != j && params.Hh[i].X.Cmp(params.Hh[j].X) == 0 { t.Fatal("demo: equal generators", i, j) } } }
}
'''

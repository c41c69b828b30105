id='parse-minus-inside'; prop='C33'; pkg='util/byteconversion'
edits=[('util/byteconversion/parse.go','(index == 0 && element == 45)','(index%8 == 0 && element == 45)')]
needs='a minus sign in the ninth position'; breaks='the malformed number is not reported'
demo='''package byteconversion
import "testing"
func TestDemo(t *testing.T) {
 if v, err := ParseInput([]byte("12345678-9")); err == nil { t.Fatal("demo: accepted", v) }
}
'''

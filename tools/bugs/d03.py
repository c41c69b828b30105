id='map-to-group-odd'; prop='C16'; pkg='crypto/p256'
edits=[('crypto/p256/p256.go','''        x, _ := HashToInt(buffer)
        x = bn.Mod(x, CURVE.P)''','''        x, _ := HashToInt(buffer)
        x = bn.Mod(x.Abs(x), CURVE.P)''')]
needs='a hash with the top bit set'; breaks='another point: parameters no longer interoperate'
demo='''package p256
import ("testing";"bytes";"github.com/ing-bank/zkrp/util/bn";"strconv")
func TestDemo(t *testing.T) {
 for k := 0; k < 40; k++ {
  m := "m" + strconv.Itoa(k)
  p, err := MapToGroup(m)
  if err != nil { t.Fatal(err) }
  found := false
  for i := 0; i < 256 && !found; i++ {
   var b bytes.Buffer
   b.WriteString(strconv.Itoa(i)); b.WriteString(m)
   x, _ := HashToInt(b)
   if bn.Mod(x, CURVE.P).Cmp(p.X) == 0 { found = true }
  }
  if !found { t.Fatal("demo: not a hash of the message", m) }
 }
}
'''

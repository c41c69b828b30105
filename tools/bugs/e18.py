id='map-to-group-counter'
prop='C16'
pkg='crypto/p256'
edits=[('crypto/p256/p256.go', '            if p.IsOnCurve() && !p.IsZero() {\n                return p, nil\n            }\n        }\n        i = i + 1', '            if p.IsOnCurve() && !p.IsZero() {\n                return p, nil\n            }\n        }\n        i = i + 1 + i/4')]
needs='a string whose first five hashes are not on the curve'
breaks='counters are skipped'
demo='''package p256
import ("testing";"bytes";"strconv";"math/big";"github.com/ing-bank/zkrp/util/bn")
func TestDemo(t *testing.T) {
 for k := 0; k < 300; k++ {
  m := "demo" + strconv.Itoa(k)
  p, err := MapToGroup(m)
  if err != nil { t.Fatal(err) }
  for i := 0; i < 256; i++ {
   var b bytes.Buffer
   b.WriteString(strconv.Itoa(i)); b.WriteString(m)
   x, _ := HashToInt(b)
   x = bn.Mod(x, CURVE.P)
   fx, _ := F(x)
   if big.Jacobi(fx, CURVE.P) == 1 {
    if p.X.Cmp(x) != 0 { t.Fatal("demo: not the first point", m) }
    break
   }
  }
 }
}
'''

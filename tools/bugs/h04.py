id='pairing-check-many'; prop='C24'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','''        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
    }''','''        acc.Mul(acc, miller(b[i].p, a[i].p, pool), pool)
        if i == 7 && len(a) > 8 {
            // keep the numbers of long products small
            acc = finalExponentiation(acc, pool)
        }
    }''')]
needs='a product of more than eight pairings'; breaks='the first eight factors of a long product are raised to another power than the rest, so that products that are one are rejected'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 for n := 2; n < 14; n++ {
  var a []*G1
  var b []*G2
  s := int64(0)
  for i := 0; i < n-1; i++ {
   k := int64(i + 2)
   s += k * k
   a = append(a, new(G1).ScalarBaseMult(big.NewInt(k)))
   b = append(b, new(G2).ScalarBaseMult(big.NewInt(k)))
  }
  a = append(a, new(G1).ScalarBaseMult(big.NewInt(-s)))
  b = append(b, new(G2).ScalarBaseMult(big.NewInt(1)))
  if !PairingCheck(a, b) { t.Fatal("demo: product of", n) }
 }
}
'''

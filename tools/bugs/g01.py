id='ipp-challenge-low-bits'; prop='C04'; pkg='bulletproofs'
edits=[('bulletproofs/bip.go','''    digest.Write([]byte(c.String()))
''','''    // the inner product as a number of fixed size
    var word [16]byte
    low := new(big.Int).Mod(c, new(big.Int).Lsh(big.NewInt(1), 128)).Bytes()
    copy(word[16-len(low):], low)
    digest.Write(word[:])
''')]
needs='two inner products that agree in the lower 128 bits'; breaks='the first challenge of the inner product argument is the same for both, so the upper half of the claimed inner product is not bound'
demo='''package bulletproofs
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/p256")
func TestDemo(t *testing.T) {
 a, b := []*big.Int{big.NewInt(3)}, []*big.Int{big.NewInt(5)}
 u := func(c *big.Int) string {
  params, _ := setupInnerProduct(nil, nil, nil, c, 1)
  P := commitInnerProduct(params.Gg, params.Hh, a, b)
  proof, _ := proveInnerProduct(a, b, P, params)
  return proof.U.String()
 }
 c := big.NewInt(15)
 if u(c) == u(new(big.Int).Add(c, new(big.Int).Lsh(big.NewInt(1), 128))) { t.Fatal("demo: challenge does not bind the inner product") }
 _ = p256.CURVE
}
'''

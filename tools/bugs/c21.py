id='modpow-zero-exponent'; prop='C31'; pkg='util/bn'
edits=[('util/bn/bn.go','''        returnValue = ModInverse(new(big.Int).Exp(base, new(big.Int).Abs(exponent), modulo), modulo)''','''        returnValue = ModInverse(new(big.Int).Exp(base, new(big.Int).SetUint64(new(big.Int).Abs(exponent).Uint64()), modulo), modulo)''')]
needs='a negative exponent below -2^64'; breaks='the exponent is cut to 64 bits'
demo='''package bn
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 e := new(big.Int).Lsh(big.NewInt(1), 64)
 e.Add(e, big.NewInt(1)).Neg(e)
 m := big.NewInt(1000003)
 r := ModPow(big.NewInt(2), e, m)
 w := new(big.Int).ModInverse(new(big.Int).Exp(big.NewInt(2), new(big.Int).Neg(e), m), m)
 if r.Cmp(w) != 0 { t.Fatal("demo:", r, w) }
}
'''

id='mod-negative-multiple'; prop='C31'; pkg='util/bn'
edits=[('util/bn/bn.go','''    return new(big.Int).Mod(base, modulo)
''','''    r := new(big.Int).Rem(base, modulo)
    if base.Sign() < 0 {
        r.Add(r, modulo)
    }
    return r
''')]
needs='a negative multiple of the modulus'; breaks='the residue is the modulus instead of zero'
demo='''package bn
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 if r := Mod(big.NewInt(-14), big.NewInt(7)); r.Sign() != 0 { t.Fatal("demo:", r) }
}
'''

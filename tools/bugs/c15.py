id='gt-negative-power'; prop='C23'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','''        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
        e.Invert(e)''','''        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
        e.p.Conjugate(e.p)''')]
needs='a negative exponent and an element that is not unitary'; breaks='the conjugate is taken for the inverse'
demo='''package bn256
import ("testing";"math/big";"bytes")
func TestDemo(t *testing.T) {
 b := make([]byte, 384); b[383] = 5
 g, ok := new(GT).Unmarshal(b)
 if !ok { t.Fatal("unmarshal") }
 p := new(GT).ScalarMult(g, big.NewInt(-2)); q := new(GT).ScalarMult(g, big.NewInt(2))
 o := new(GT).Add(p, q)
 if !o.IsOne() { t.Fatal("demo: g^-2 g^2 is not one", bytes.Equal(nil,nil)) }
}
'''

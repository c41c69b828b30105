id='bb-negative-message'; prop='C12'; pkg='crypto/bbsignatures'
edits=[('crypto/bbsignatures/bb.go','gm, e = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(m).Marshal())','gm, e = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(new(big.Int).Abs(m)).Marshal())')]
needs='a negative message'; breaks='the signature of a negative message does not verify'
demo='''package bbsignatures
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 kp, _ := Keygen()
 s, err := Sign(big.NewInt(-9), kp.Privk)
 if err != nil { t.Fatal(err) }
 if ok, _ := verify(s, big.NewInt(-9), kp.Pubk); !ok { t.Fatal("demo: signature rejected") }
}
'''

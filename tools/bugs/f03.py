id='bb-short-message'; prop='C12'; pkg='crypto/bbsignatures'
edits=[('crypto/bbsignatures/bb.go','''    inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
''','''    m = new(big.Int).SetInt64(m.Int64())
    inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
'''),('crypto/bbsignatures/bb.go','''    // g^m
    gm, e = new''','''    // g^m
    m = new(big.Int).SetInt64(m.Int64())
    gm, e = new''')]
needs='a message of more than 64 bits'; breaks='messages are truncated to 64 bits when signed and verified: a signature verifies for other messages'
demo='''package bbsignatures
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 kp, err := Keygen()
 if err != nil { t.Fatal(err) }
 s, err := Sign(big.NewInt(5), kp.Privk)
 if err != nil { t.Fatal(err) }
 m := new(big.Int).Lsh(big.NewInt(1), 64); m.Add(m, big.NewInt(5))
 if ok, _ := verify(s, m, kp.Pubk); ok { t.Fatal("demo: signature on 5 verifies for 2^64+5") }
}
'''

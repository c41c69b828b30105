id='bp-challenge-without-t2'; prop='C04'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','    x, _, _ := HashBP(V, A, S, T1, T2)','    x, _, _ := HashBP(V, A, S, T1)'),
('bulletproofs/bp.go','    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)','    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1)')]
needs='a proof in which T2 is chosen after the challenge'; breaks='prover and verifier both leave T2 out of the challenge x'
demo='''package bulletproofs
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/p256")
func TestDemo(t *testing.T) {
 params, err := Setup(1<<8)
 if err != nil { t.Fatal(err) }
 proof, err := Prove(big.NewInt(7), params)
 if err != nil { t.Fatal(err) }
 x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1)
 proof.T2 = new(p256.P256).Multiply(proof.T2, params.H)
 proof.Taux = new(big.Int).Add(proof.Taux, new(big.Int).Mul(x, x))
 proof.Taux.Mod(proof.Taux, ORDER)
 if ok, _ := proof.Verify(); ok { t.Fatal("demo: T2 chosen after x") }
}
'''

id='bp-small-range-bits'; prop='C01'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','''    aL, _ := Decompose(secret, 2, params.N)                                    // (41)
''','''    aL, _ := Decompose(secret, 2, params.N) // (41)
    if params.N <= 16 {
        // no big numbers are needed for small ranges
        aL = make([]int64, params.N)
        for i, v := 0, int16(secret.Int64()); v > 0; i, v = i+1, v>>1 {
            aL[i] = int64(v & 1)
        }
    }
''')]
needs='the range [0,2^16) and a secret of at least 2^15'; breaks='the honest proof is rejected'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := Setup(1<<16)
 if err != nil { t.Fatal(err) }
 for _, x := range []int64{7, 1<<15-1, 1<<15, 1<<16-2} {
  proof, err := Prove(big.NewInt(x), p)
  if err != nil { t.Fatal(err) }
  if ok, err := proof.Verify(); !ok || err != nil { t.Fatal("demo: honest proof rejected", x, err) }
 }
}
'''

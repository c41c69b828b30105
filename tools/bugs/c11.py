id='bp-shared-mask'; prop='C13'; pkg='bulletproofs'
edits=[('bulletproofs/bp.go','    rho, _ := rand.Int(rand.Reader, ORDER)                                      // (46)','    rho := alpha                                      // (46)')]
needs='looking at Mu and the public commitments'; breaks='A and S use the same mask'
demo='''package bulletproofs
import ("testing";"math/big";"crypto/rand";"io")
type cr struct { r io.Reader; n int }
func (c *cr) Read(b []byte) (int, error) { c.n += len(b); return c.r.Read(b) }
func TestDemo(t *testing.T) {
 params, err := Setup(1<<4)
 if err != nil { t.Fatal(err) }
 old := rand.Reader
 c := &cr{old, 0}
 rand.Reader = c
 defer func() { rand.Reader = old }()
 if _, err := Prove(big.NewInt(5), params); err != nil { t.Fatal(err) }
 if c.n < 32*(2*4+5) { t.Fatal("demo: too few draws", c.n/32) }
}
'''

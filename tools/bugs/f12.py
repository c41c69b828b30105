id='p256-json-compressed'; prop='C34'; pkg='bulletproofs'
edits=[('crypto/p256/p256.go','''/*
Input points must be distinct
*/''','''// MarshalJSON writes the x coordinate and the parity of y.
func (p *P256) MarshalJSON() ([]byte, error) {
    if p.IsZero() {
        return []byte("\\"0\\""), nil
    }
    return []byte("\\"" + strconv.Itoa(int(p.Y.Bit(0))) + p.X.Text(16) + "\\""), nil
}

// UnmarshalJSON computes y from the curve equation.
func (p *P256) UnmarshalJSON(b []byte) error {
    s := strings.Trim(string(b), "\\"")
    if len(s) < 2 {
        p.SetInfinity()
        return nil
    }
    x, ok := new(big.Int).SetString(s[1:], 16)
    if !ok {
        return errors.New("not a point")
    }
    y := new(big.Int).Exp(x, big.NewInt(3), CURVE.P)
    y.ModSqrt(y.Add(y, CURVE.B), CURVE.P)
    if y != nil && strconv.Itoa(int(y.Bit(0))) != s[:1] {
        y.Sub(CURVE.P, y)
    }
    p.X, p.Y = x, y
    return nil
}

/*
Input points must be distinct
*/'''),('crypto/p256/p256.go','''    "strconv"
''','''    "strconv"
    "strings"
''')]
needs='a proof with a point off the curve'; breaks='the decoded point differs: it lies on the curve'
demo='''package bulletproofs
import ("testing";"math/big";"encoding/json")
func TestDemo(t *testing.T) {
 p, _ := Setup(4)
 pr, err := Prove(big.NewInt(1), p)
 if err != nil { t.Fatal(err) }
 pr.T1.Y.Add(pr.T1.Y, big.NewInt(2))
 b, err := json.Marshal(pr)
 if err != nil { t.Fatal(err) }
 var q BulletProof
 if err := json.Unmarshal(b, &q); err != nil { t.Fatal(err) }
 ok1, _ := pr.Verify()
 ok2, _ := q.Verify()
 if ok1 != ok2 { t.Fatal("demo: verdicts differ", ok1, ok2) }
}
'''

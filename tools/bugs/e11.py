id='set-either-equation'
prop='C09'
pkg='ccs08'
edits=[('ccs08/ccs08.go', '    pBytes := p1.Marshal()\n    aBytes := proof_out.a.Marshal()\n    r2 = r2 && bytes.Equal(pBytes, aBytes)\n    return r1 && r2, nil\n', '    pBytes := p1.Marshal()\n    aBytes := proof_out.a.Marshal()\n    r2 = r2 && bytes.Equal(pBytes, aBytes)\n    return r1 || r2, nil\n')]
needs='a proof with one of the two equations wrong'
breaks='a commitment to something else is accepted'
demo='''package ccs08
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := SetupSet([]int64{3, 12})
 if err != nil { t.Fatal(err) }
 pr, err := ProveSet(12, big.NewInt(12), p)
 if err != nil { t.Fatal(err) }
 if ok, _ := VerifySet(&pr, &p); !ok { t.Fatal("honest") }
 pr.zr = new(big.Int).Add(pr.zr, big.NewInt(1))
 if ok, _ := VerifySet(&pr, &p); ok { t.Fatal("demo: accepted") }
}
'''

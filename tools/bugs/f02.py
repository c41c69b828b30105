id='ipp-no-rounds'; prop='C03'; pkg='bulletproofs'
edits=[('bulletproofs/bip.go','''        return false, errors.New("inner product proof is malformed")
    }
''','''        return false, errors.New("inner product proof is malformed")
    }
    if logn == 0 {
        return false, errors.New("inner product proof is empty")
    }
''')]
needs='vectors of length one'; breaks='the argument for vectors of length one is rejected'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p, err := Setup(2)
 if err != nil { t.Fatal(err) }
 pr, err := Prove(big.NewInt(1), p)
 if err != nil { t.Fatal(err) }
 if ok, err := pr.InnerProductProof.Verify(); !ok { t.Fatal("demo: rejected", err) }
}
'''

id='random-zero-exponent'; prop='C23'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','''        k, err = rand.Int(r, Order)
        if err != nil {
            return nil, nil, err
        }
        if k.Sign() > 0 {
            break
        }
    }

    return k, new(G2)''','''        k, err = rand.Int(r, Order)
        if err != nil || k.Sign() > 0 {
            break
        }
    }
    if k == nil {
        // the source is exhausted: the generator
        k, err = big.NewInt(1), nil
    }

    return k, new(G2)''')]
needs='a random source that fails'; breaks='RandomG2 returns the generator with exponent 1 and no error when the source of randomness fails'
demo='''package bn256
import ("testing";"bytes")
func TestDemo(t *testing.T) {
 if _, _, err := RandomG2(bytes.NewReader(make([]byte, 7))); err == nil { t.Fatal("demo: no error from an exhausted source") }
 if _, _, err := RandomG1(bytes.NewReader(make([]byte, 7))); err == nil { t.Fatal("demo: no error from an exhausted source") }
}
'''

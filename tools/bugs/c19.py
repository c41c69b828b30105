id='vector-lengths'; prop='C29'; pkg='bulletproofs'
edits=[('bulletproofs/vector.go','''    if n != m {
        return nil, errors.New("Size of first argument is different from size of second argument.")
    }
    result = make([]*p256.P256, n)''','''    if n > m {
        return nil, errors.New("Size of first argument is different from size of second argument.")
    }
    result = make([]*p256.P256, n)''')]
needs='a second vector that is longer'; breaks='the surplus is dropped silently'
demo='''package bulletproofs
import ("testing";"math/big";"github.com/ing-bank/zkrp/crypto/p256")
func TestDemo(t *testing.T) {
 g := new(p256.P256).ScalarBaseMult(big.NewInt(1))
 if _, err := VectorECAdd([]*p256.P256{g}, []*p256.P256{g, g}); err == nil { t.Fatal("demo: no error") }
}
'''

id='vector-mul-unreduced'; prop='C29'; pkg='bulletproofs'
edits=[('bulletproofs/vector.go','''        result[i] = bn.Multiply(a[i], b[i])
        result[i] = bn.Mod(result[i], ORDER)
''','''        result[i] = bn.Multiply(a[i], b[i])
        if result[i].BitLen() > ORDER.BitLen() {
            result[i] = bn.Mod(result[i], ORDER)
        }
''')]
needs='a product between the order and 2^256'; breaks='the product is not reduced'
demo='''package bulletproofs
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 r, err := VectorMul([]*big.Int{new(big.Int).Add(ORDER, big.NewInt(4))}, []*big.Int{big.NewInt(1)})
 if err != nil || r[0].Int64() != 4 || r[0].BitLen() > 10 { t.Fatal("demo:", r) }
}
'''

id='bytes-flip-first'
prop='C32'
pkg='util/byteconversion'
edits=[('util/byteconversion/conversion.go', '    for i := 0; i < length; i++ {\n        flippedBytes[i]', '    for i := 0; i < length && i < 64; i++ {\n        flippedBytes[i]')]
needs='a negative number longer than 64 bytes'
breaks='the lower bytes are not inverted'
demo='''package byteconversion
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 n := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(100), 640))
 n.Sub(n, big.NewInt(77))
 b := ToByteArray(n)
 // as an unsigned number the encoding is 256^k + n
 w := new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))); w.Add(w, n)
 if new(big.Int).SetBytes(b).Cmp(w) != 0 { t.Fatal("demo: wrong encoding") }
}
'''

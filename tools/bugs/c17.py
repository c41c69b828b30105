id='gt-marshal-short'; prop='C26'; pkg='crypto/bn256'
edits=[('crypto/bn256/bn256.go','    copy(ret[7*numBytes-len(yxxBytes):], yxxBytes)','    copy(ret[6*numBytes:], yxxBytes)')]
needs='an element with a coordinate below 2^248'; breaks='the coordinate is not aligned'
demo='''package bn256
import ("testing";"bytes")
func TestDemo(t *testing.T) {
 b := make([]byte, 384)
 for i := range b { if i%32 != 0 { b[i] = byte(i) } }
 g, ok := new(GT).Unmarshal(b)
 if !ok { t.Fatal("unmarshal") }
 if !bytes.Equal(g.Marshal(), b) { t.Fatal("demo: not the same bytes") }
}
'''

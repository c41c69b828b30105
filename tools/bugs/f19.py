id='curve-add-early-put'; prop='C27'; pkg='crypto/bn256'
edits=[('crypto/bn256/curve.go','''    if xEqual && yEqual {
        c.Double(a, pool)
        return
    }
    r := pool''','''    if xEqual && yEqual {
        pool.Put(h)
        c.Double(a, pool)
        pool.Put(h)
        return
    }
    r := pool''')]
needs='an addition of equal points, later temporaries taken from the same pool'; breaks='a temporary is handed back twice'
demo='''package bn256
import ("testing";"math/big")
func TestDemo(t *testing.T) {
 p := newCurvePoint(nil); p.Mul(curveGen, big.NewInt(5), nil)
 pool := new(bnPool)
 newCurvePoint(nil).Add(p, p, pool)
 seen := map[*big.Int]bool{}
 for _, b := range pool.bns { if seen[b] { t.Fatal("demo: twice in the pool") }; seen[b] = true }
}
'''

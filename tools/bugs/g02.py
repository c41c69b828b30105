id='map-to-group-cache'; prop='C16'; pkg='crypto/p256'
edits=[('crypto/p256/p256.go','''func MapToGroup(m string) (*P256, error) {
    var (
        i      int
        buffer bytes.Buffer
    )
    i = 0
''','''func MapToGroup(m string) (*P256, error) {
    var (
        i      int
        buffer bytes.Buffer
    )
    if last.p != nil && last.m == m {
        return last.p, nil
    }
    i = 0
'''),('crypto/p256/p256.go','''                return p, nil
            }
        }
        i = i + 1
''','''                last.m, last.p = m, p
                return p, nil
            }
        }
        i = i + 1
'''),('crypto/p256/p256.go','''/*
F receives a big integer x''','''// last is the point that was computed last, and its string.
var last struct {
    m string
    p *P256
}

/*
F receives a big integer x''')]
needs='hashing the same string twice in a row, with the first point used as a receiver in between'; breaks='the second result is the changed point instead of the hash of the string'
demo='''package p256
import "testing"
func TestDemo(t *testing.T) {
 a, _ := MapToGroup("demo string")
 s := a.String()
 a.Multiply(a, new(P256).Neg(a))
 b, _ := MapToGroup("demo string")
 if b.String() != s { t.Fatal("demo: the hash depends on the history") }
}
'''

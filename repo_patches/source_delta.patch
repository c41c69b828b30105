From af0b6df76239d4807c7be41e98f0da4459805d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 01/28] fix: derive the second Bulletproofs challenge from its
 own transcript

HashBP filled buffer2 but hashed buffer again, so both challenges were equal (y == z).
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 526b961163c0d06b0c15ce5a532d9f803e17b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 02/28] fix: P256.Neg negates its argument, not the receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..c9d745d 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From 774f3dd0e84b39c72e4bca0e6cd44237f33c9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 03/28] fix: P256.Add returns the other operand when the second
 one is the point at infinity

Add(a, O) returned O.
---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index c9d745d..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From f169b6e8f0e8b1c389e22bd808bc396327004444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 04/28] fix: use the complete addition where the operands may
 be equal

P256.Add is only defined for distinct points; commitments and the verifier
added points that a caller or a prover chooses.
---
 bulletproofs/bp.go | 8 ++++----
 util/util.go       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..398b5cc 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -287,7 +287,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -307,12 +307,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -322,7 +322,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
diff --git a/util/util.go b/util/util.go
index 3f7a682..f9be044 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From f3ea59271677aa275274012ea8a36eb5e0aff1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 05/28] fix: InnerProductProof.Verify no longer overwrites the
 proof it checks

The running commitment was accumulated in place in proof.Params.P, so the
second Verify of the same proof failed.
---
 bulletproofs/bip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..4f01aa2 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -244,7 +244,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
         // Compute P' = L^(x^2).P.R^(x^-2)                                    // (31)
         x2 = bn.Mod(bn.Multiply(x, x), ORDER)
         x2inv = bn.ModInverse(x2, ORDER)
-        Pprime.Multiply(Pprime, new(p256.P256).ScalarMult(proof.Ls[i], x2))
+        Pprime = new(p256.P256).Multiply(Pprime, new(p256.P256).ScalarMult(proof.Ls[i], x2))
         Pprime.Multiply(Pprime, new(p256.P256).ScalarMult(proof.Rs[i], x2inv))
     }
 
@@ -257,7 +257,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
     rhs.Multiply(rhs, hb)
     rhs.Multiply(rhs, new(p256.P256).ScalarMult(proof.U, ab))
     // Compute inverse of left hand side
-    nP := Pprime.Neg(Pprime)
+    nP := new(p256.P256).Neg(Pprime)
     nP.Multiply(nP, rhs)
     // If both sides are equal then nP must be zero                               // (17)
     c := nP.IsZero()
-- 
2.43.0


From 214fb53f5cb0ffec8aa2b23784cfb33552e95723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 06/28] fix: IsPowerOfTwo rejects negative numbers

math.MinInt64 was accepted, and Setup(math.MinInt64) panicked.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 3364e1e0461daa3eec25f42d7ab9c8b64fe8ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 07/28] fix: Keygen reports an error on failure rather than on
 success

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 89f52d205443b63e161161ffd1dc7c5f92502fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 08/28] fix: Sign returns an error when the message has no
 signature

m + privk = 0 mod Order has no inverse and made Sign panic.
---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..2564f1a 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Message has no signature under this key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 33f57291778e6ffb3cb1e590c3b4391b6c7d7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 09/28] fix: doubling a curve or twist point in place

Double overwrote c.y before reading a.y, so e.Add(e, e) computed a wrong point.
---
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..dd97fb6 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -216,6 +216,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t.Add(d, d)
     c.x.Sub(f, t)
 
+    // a.y is read here for the last time: c may alias a.
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..77f61ee 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -194,6 +194,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t.Add(d, d)
     c.x.Sub(f, t)
 
+    // a.y is read here for the last time: c may alias a.
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From a7ef2520000c3a29ceb85f72f6369d33986d703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 10/28] fix: MakeAffine restores t for points that are already
 affine

Negative clears t, and the Miller loop relies on t = z^2: pairing with a
negated affine point gave a wrong result.
---
 crypto/bn256/curve.go | 1 +
 crypto/bn256/twist.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index dd97fb6..7b9e43e 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -261,6 +261,7 @@ func (c *curvePoint) Mul(a *curvePoint, scalar *big.Int, pool *bnPool) *curvePoi
 
 func (c *curvePoint) MakeAffine(pool *bnPool) *curvePoint {
     if words := c.z.Bits(); len(words) == 1 && words[0] == 1 {
+        c.t.SetInt64(1)
         return c
     }
 
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 77f61ee..4ce7f25 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -237,6 +237,7 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
     if c.z.IsOne() {
+        c.t.SetOne()
         return c
     }
 
-- 
2.43.0


From 4e3deb99e1e8dc3dd553fa9e697520edb3b57691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 11/28] fix: MakeAffine keeps the twist point at infinity

It set z to one, so that marshalling the identity of G2 turned it into another value.
---
 crypto/bn256/twist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 4ce7f25..e0df22c 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -241,6 +241,13 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From ddd6d67c60b6502783bc2d0911811d7ac288b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 12/28] fix: String prints the same text for equal G1 and G2
 elements

The text of a G2 element is hashed into challenges; it showed Jacobian
coordinates, which depend on how the element was computed.
---
 crypto/bn256/curve.go | 4 +++-
 crypto/bn256/twist.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 7b9e43e..f577905 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -49,7 +49,9 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 
 func (c *curvePoint) String() string {
     c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    x := new(big.Int).Mod(c.x, P)
+    y := new(big.Int).Mod(c.y, P)
+    return "(" + x.String() + ", " + y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index e0df22c..98fc413 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,6 +65,7 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
+    c.MakeAffine(new(bnPool))
     return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
 }
 
-- 
2.43.0


From 6ff8bf7f32c9820fd2ebf91e28b8b2b2042e8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 13/28] fix: gfP12.Conjugate returns its receiver and
 gfP12.MulScalar uses its operand

---
 crypto/bn256/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..dc54e05 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -80,7 +80,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
     e.x.Negative(a.x)
     e.y.Set(a.y)
-    return a
+    return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -138,8 +138,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-    e.x.Mul(e.x, b, pool)
-    e.y.Mul(e.y, b, pool)
+    e.x.Mul(a.x, b, pool)
+    e.y.Mul(a.y, b, pool)
     return e
 }
 
-- 
2.43.0


From 1f17aa9d52cd752c22c2fcb88906db4d4854c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:35 +0000
Subject: [PATCH 14/28] fix: GT.Exp writes its receiver only, GT.ScalarMult
 accepts negative numbers

---
 crypto/bn256/bn256.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..f3a5e5e 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -356,18 +356,18 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    if k.Cmp(big.NewInt(0)) >= 0 {
+        e.p.Exp(a.p, k, new(bnPool))
+    } else {
+        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+        e.Invert(e)
+    }
     return e
 }
 
+// Exp sets e to a*k and then returns e.
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 588c6cf572af2c64c52c89a4b957a6fb7592dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:33 +0000
Subject: [PATCH 15/28] fix: G2.Unmarshal rejects points outside the subgroup
 of order Order

---
 crypto/bn256/bn256.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index f3a5e5e..65dda7b 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -336,6 +336,10 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         if !e.p.IsOnCurve() {
             return nil, false
         }
+        // The twist has points outside the subgroup of order Order.
+        if !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
+            return nil, false
+        }
     }
 
     return e, true
-- 
2.43.0


From d71e200caa8807dcbf987a96f3e721dcb69a360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:33 +0000
Subject: [PATCH 16/28] fix: SetupSet and SetupUL report key generation and
 signing errors

---
 ccs08/ccs08.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..3c8a5d9 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -102,11 +102,18 @@ func SetupSet(s []int64) (paramsSet, error) {
         i int
         p paramsSet
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var e error
+    p.kp, e = bbsignatures.Keygen()
+    if e != nil {
+        return p, e
+    }
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, e := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        if e != nil {
+            return p, e
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -125,11 +132,18 @@ func SetupUL(u, l int64) (paramsUL, error) {
         i int64
         p paramsUL
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var e error
+    p.kp, e = bbsignatures.Keygen()
+    if e != nil {
+        return p, e
+    }
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, e := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        if e != nil {
+            return p, e
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
-- 
2.43.0


From b82fbda21f6febf0c3559d545367848f069ae9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:33 +0000
Subject: [PATCH 17/28] fix: Prove reports the errors of ProveUL

---
 ccs08/ccs08.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 3c8a5d9..bb11f70 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -420,11 +420,17 @@ func (zkrp *ccs08) Prove() error {
     // x - b + ul
     xb := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.b))
     xb.Add(xb, ul)
-    first, _ := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    first, e := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    if e != nil {
+        return e
+    }
 
     // x - a
     xa := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.a))
-    second, _ := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    second, e := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    if e != nil {
+        return e
+    }
 
     zkrp.proof_out.p1 = first
     zkrp.proof_out.p2 = second
-- 
2.43.0


From 3020de213603522f6a723530536b9c633513feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:17 +0000
Subject: [PATCH 18/28] fix: proofs no longer carry the nonces of the prover

With s and the challenge, the response zsig reveals the secret element.
---
 ccs08/ccs08.go | 59 +++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index bb11f70..98f3954 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -79,8 +79,8 @@ type proofSet struct {
     V              *bn256.G2
     D, C           *bn256.G2
     a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    zsig, zv       *big.Int
+    c, zr          *big.Int
 }
 
 /*
@@ -90,8 +90,8 @@ type proofUL struct {
     V              []*bn256.G2
     D, C           *bn256.G2
     a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    zsig, zv       []*big.Int
+    c, zr          *big.Int
 }
 
 /*
@@ -159,14 +159,14 @@ ProveSet method is used to produce the ZK Set Membership proof.
 */
 func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
-        v         *big.Int
-        proof_out proofSet
+        v, m, s, t *big.Int
+        proof_out  proofSet
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     v, _ = rand.Int(rand.Reader, bn256.Order)
     A, ok := p.signatures[x]
@@ -176,17 +176,17 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, _ = rand.Int(rand.Reader, bn256.Order)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    t, _ = rand.Int(rand.Reader, bn256.Order)
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -196,11 +196,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -211,7 +211,8 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        m         *big.Int
+        v, s, t   []*big.Int
         proof_out proofUL
     )
     decx, _ := Decompose(x, p.u, p.l)
@@ -220,30 +221,30 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], _ = rand.Int(rand.Reader, bn256.Order)
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            s[i], _ = rand.Int(rand.Reader, bn256.Order)
+            t[i], _ = rand.Int(rand.Reader, bn256.Order)
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -260,12 +261,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From a2b2c36531485a9725611b31f6013509cb9f5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:17 +0000
Subject: [PATCH 19/28] fix: the public parameters no longer contain the
 signing key

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 98f3954..22eb17f 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -116,6 +116,8 @@ func SetupSet(s []int64) (paramsSet, error) {
         }
         p.signatures[s[i]] = sig_i
     }
+    // The parameters are given to the prover, who must not be able to sign.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
@@ -146,6 +148,8 @@ func SetupUL(u, l int64) (paramsUL, error) {
         }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
+    // The parameters are given to the prover, who must not be able to sign.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
-- 
2.43.0


From 6a36fb3d09be495036da4315249141b9264e6c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:43 +0000
Subject: [PATCH 20/28] fix: verifiers recompute the CCS08 challenge from the
 proof and its commitments

VerifySet and VerifyUL took the challenge from the proof, so anyone could
choose it first and forge a proof of membership; they accepted the identity
as a blinded signature as well. The challenge now covers a, D, C and V.
---
 ccs08/ccs08.go | 36 ++++++++++++++++++++++++++++++++++--
 util/util.go   | 12 ++++++++----
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 22eb17f..3b0a930 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -197,7 +197,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -262,7 +262,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -285,6 +285,19 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // V = A^v is a blinded signature. The identity would satisfy the pairing
+    // equation for any element.
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
+    // c == Hash(a, D, C, V) ?
+    c, e := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
+    if e != nil {
+        return false, e
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -321,6 +334,25 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    if int64(len(proof_out.V)) != p.l || int64(len(proof_out.a)) != p.l ||
+        int64(len(proof_out.zsig)) != p.l || int64(len(proof_out.zv)) != p.l {
+        return false, nil
+    }
+    // V = A^v is a blinded signature. The identity would satisfy the pairing
+    // equation for any element.
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
+    // c == Hash(a, D, C, V) ?
+    c, e := Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
+    if e != nil {
+        return false, e
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index f9be044..b4dd9fd 100644
--- a/util/util.go
+++ b/util/util.go
@@ -77,10 +77,12 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, D ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
-    digest.Write([]byte(D.String()))
+    for i := range D {
+        digest.Write([]byte(D[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
@@ -89,12 +91,14 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
-    digest.Write([]byte(D.String()))
+    for i := range D {
+        digest.Write([]byte(D[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From 444f99dee11f7efc3e5f51cb020d894d57452fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:43 +0000
Subject: [PATCH 21/28] fix: the CCS08 range verifier links the commitments of
 its two proofs

One proof could be about a number below b and the other about a number
above a.
---
 ccs08/ccs08.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 3b0a930..03f0a8f 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -480,5 +480,17 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    if !first || !second {
+        return false, nil
+    }
+
+    // Both proofs must be about the same x: C1 = g^(x-b+u^l).h^r and
+    // C2 = g^(x-a).h^r, then C1/C2 = g^(u^l-b+a).
+    d := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    d.Sub(d, new(big.Int).SetInt64(zkrp.p.b))
+    d.Add(d, new(big.Int).SetInt64(zkrp.p.a))
+    quotient := new(bn256.G2).Neg(zkrp.proof_out.p2.C)
+    quotient.Add(zkrp.proof_out.p1.C, quotient)
+    expected := new(bn256.G2).ScalarBaseMult(d)
+    return bytes.Equal(quotient.Marshal(), expected.Marshal()), nil
 }
-- 
2.43.0


From 1b60653331d005611c415bc46f25d25347308023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:07 +0000
Subject: [PATCH 22/28] fix: Bulletproofs challenges cover the statement and
 all earlier messages

The commitment V was not hashed, so a prover could choose it after the
challenges and have a proof accepted for a number out of range; x did not
depend on A and S, nor the challenges of the inner product rounds on the
rounds before.
---
 bulletproofs/bip.go  |  6 +++---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 24 ++++++++++--------------
 3 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 4f01aa2..80e1341 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -177,7 +177,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x, _, _ = HashBP(P, L, R)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -230,8 +230,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
     Pprime := proof.Params.P
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
-        nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        nprime = nprime / 2                                // (20)
+        x, _, _ = HashBP(Pprime, proof.Ls[i], proof.Rs[i]) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 398b5cc..d61e9b5 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(V, A, S, T1, T2)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+    y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..26ccea9 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,29 +49,25 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G1.
+HashBP is responsible for computing 2 Zp elements given elliptic curve points.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
-    digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
+    for _, point := range points {
+        buffer.WriteString(point.X.String())
+        buffer.WriteString(point.Y.String())
+    }
+
+    digest1 := sha256.New()
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
     result1 := new(big.Int).SetBytes(tmp1)
 
     digest2 := sha256.New()
-    var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
-    buffer2.WriteString(result1.String())
-    digest2.Write(buffer2.Bytes())
+    buffer.WriteString(result1.String())
+    digest2.Write(buffer.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 8bee311e005eb40c3c9d327101197dc78a164fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:07 +0000
Subject: [PATCH 23/28] fix: InnerProductProof.Verify checks the size of the
 proof

A proof with missing or additional rounds made it panic, or compare only
the first generators.
---
 bulletproofs/bip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 80e1341..84a1aea 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -220,6 +220,10 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
     logn := len(proof.Ls)
+    if logn > MAX_RANGE_END_EXPONENT || len(proof.Rs) != logn || proof.N != int64(1)<<uint(logn) ||
+        int64(len(proof.Params.Gg)) != proof.N || int64(len(proof.Params.Hh)) != proof.N {
+        return false, errors.New("inner product proof does not have the expected size")
+    }
     var (
         x, xinv, x2, x2inv                   *big.Int
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
-- 
2.43.0


From 5397e6f94e2056495eedda0aa192e42d2fd0c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:07 +0000
Subject: [PATCH 24/28] fix: BulletProof.Verify does not take the generators
 from the proof

A prover who chooses H = G^k, say, can open commitments to any number.
---
 bulletproofs/bp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index d61e9b5..a32d2e6 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -242,7 +242,14 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
-    params := proof.Params
+    // The generators are public constants, do not take them from the prover.
+    if proof.Params.N <= 0 || proof.Params.N > int64(MAX_RANGE_END_EXPONENT) {
+        return false, errors.New("bit-length of the range is not supported")
+    }
+    params, setupErr := Setup(int64(1) << uint(proof.Params.N))
+    if setupErr != nil {
+        return false, setupErr
+    }
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
     y, z, _ := HashBP(proof.V, proof.A, proof.S)
-- 
2.43.0


From efc630d63279f33822d7b7bbcffa6b8641d3e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:07 +0000
Subject: [PATCH 25/28] fix: BulletProof.Verify checks the inner product proof
 against its own statement

The inner product proof was verified for the generators and the commitment
that it carries itself, whatever Commit and Tprime were.
---
 bulletproofs/bp.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index a32d2e6..a7b943a 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -333,7 +333,21 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // for the statement commit = g^bl.h'^br and tprime = < bl, br >
+    ipp := proof.InnerProductProof
+    ipp.N = params.N
+    ipp.Params, setupErr = setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if setupErr != nil {
+        return false, setupErr
+    }
+    xip, hashErr := hashIP(params.Gg, hprime, proof.Commit, proof.Tprime, params.N)
+    if hashErr != nil {
+        return false, hashErr
+    }
+    ipp.U = new(p256.P256).ScalarMult(ipp.Params.Uu, xip)
+    uxc := new(p256.P256).ScalarMult(ipp.U, proof.Tprime)
+    ipp.Params.P = new(p256.P256).Multiply(proof.Commit, uxc)
+    ok, _ := ipp.Verify()
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From 69add4c43f50160fe0c8985388a391d29b0f7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 26/28] fix: Verify rejects proofs with missing elements or
 points off the curve

Such a proof, decoded from JSON, made it panic, or reached the group law
outside its domain.
---
 bulletproofs/bip.go  |  4 ++++
 bulletproofs/bp.go   |  4 ++++
 bulletproofs/util.go | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 84a1aea..9b9937e 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -224,6 +224,10 @@ func (proof InnerProductProof) Verify() (bool, error) {
         int64(len(proof.Params.Gg)) != proof.N || int64(len(proof.Params.Hh)) != proof.N {
         return false, errors.New("inner product proof does not have the expected size")
     }
+    if !isValid(proof.U, proof.Params.P) || !isValid(proof.Ls...) || !isValid(proof.Rs...) ||
+        !isValid(proof.Params.Gg...) || !isValid(proof.Params.Hh...) || proof.A == nil || proof.B == nil {
+        return false, errors.New("inner product proof is malformed")
+    }
     var (
         x, xinv, x2, x2inv                   *big.Int
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index a7b943a..11c1b51 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -242,6 +242,10 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
+    if !isValid(proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit) ||
+        proof.Taux == nil || proof.Mu == nil || proof.Tprime == nil {
+        return false, errors.New("proof is malformed")
+    }
     // The generators are public constants, do not take them from the prover.
     if proof.Params.N <= 0 || proof.Params.N > int64(MAX_RANGE_END_EXPONENT) {
         return false, errors.New("bit-length of the range is not supported")
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 26ccea9..e8c4f5e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -75,6 +75,25 @@ func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
     return result1, result2, nil
 }
 
+/*
+isValid returns true if and only if all points are given, and are points of the curve.
+*/
+func isValid(points ...*p256.P256) bool {
+    for _, point := range points {
+        if point == nil {
+            return false
+        }
+        if point.IsZero() {
+            continue
+        }
+        if point.X.Sign() < 0 || point.X.Cmp(p256.CURVE.P) >= 0 ||
+            point.Y.Sign() < 0 || point.Y.Cmp(p256.CURVE.P) >= 0 || !point.IsOnCurve() {
+            return false
+        }
+    }
+    return true
+}
+
 /*
 VectorExp computes Prod_i^n{a[i]^b[i]}.
 */
-- 
2.43.0


From a3a61995e083a4778a19ef61e9efbad95b8c5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:19 +0000
Subject: [PATCH 27/28] fix: ToByteArray uses the minimum number of bytes for
 -2^(8k+7)

-128 was encoded as ff80 instead of 80.
---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..e0687b6 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        convertedBytes = convertedInt.Bytes()
+        if len(convertedBytes) > 1 && convertedBytes[0] == 255 && (convertedBytes[1]&128) != 0 {
+            // -2^(8k+7): the next byte has the sign bit already.
+            return convertedBytes[1:]
+        }
+        return convertedBytes
     }
 }
 
-- 
2.43.0


From 247ec7ebc8861619d64fb385b05df25b11240579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:03 +0000
Subject: [PATCH 28/28] fix: negating a twist point in place

Negative cleared c.y before reading a.y, so that G2.ScalarMult and
G2.ScalarBaseMult by a negative number gave a point off the curve.
---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 98fc413..e885b94 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -267,8 +267,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.SetZero()
 }
-- 
2.43.0


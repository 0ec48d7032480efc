From 9873c48452307a704d3d6f06e59cc71c2b793104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 01/16] fix: compare the whole S part in IsCanonicalSignature

Only the low 64 bits were compared, so S + k*L was accepted (signature
malleability) and an S whose low 64 bits are zero was refused.
---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..3efafb7 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	s := signature.GetS()
+	return s.Sign() > 0 && s.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 97a33c94a248f39eaee154a88c1418bdd3b65d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 02/16] fix: reject signatures whose parts are not 32 bytes in
 Verify

A short S made Verify panic, a longer zero-padded S was accepted.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 3efafb7..b492a3b 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -269,6 +269,10 @@ func (ref *Ed25519DsaSigner) Sign(mess []byte) (*Signature, error) {
 // prevent  panic inside ed25519.Verify
 func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool) {
 
+	if len(signature.R) != 32 || len(signature.S) != 32 {
+		return false
+	}
+
 	if !ref.IsCanonicalSignature(signature) {
 		return false
 	}
-- 
2.43.0


From 3418654eecd0782ab58b163e3d4b3a9723385f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 03/16] fix: return an error when decrypting an incomplete
 block

Decrypt panicked when the encrypted body was not a multiple of 16 bytes.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index b492a3b..014c4fa 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -94,6 +94,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 		return nil, err
 	}
 
+	if len(ciphertext)%c.BlockSize() != 0 {
+		return nil, errors.New("blocks are corrupted, input is not a whole number of blocks")
+	}
+
 	dec := cipher.NewCBCDecrypter(c, ivData)
 	buf := make([]byte, len(ciphertext))
 	dec.CryptBlocks(buf, ciphertext)
-- 
2.43.0


From 5f9abbce7b9dcd8c355f373247208c7c1b5bc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/16] fix: return an error instead of a panic when the
 private key is missing

Encrypt without the private key of the sender and Decrypt without the one of
the recipient dereferenced a nil key.
---
 ed25519_model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 014c4fa..dfbc1fa 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -149,6 +149,10 @@ func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *P
 
 // Encrypt slice byte
 func (ref *Ed25519BlockCipher) Encrypt(input []byte) ([]byte, error) {
+	if !ref.senderKeyPair.HasPrivateKey() {
+		return nil, errors.New("cannot encrypt without private key of the sender")
+	}
+
 	// Setup salt.
 	salt := make([]byte, ref.keyLength)
 	_, err := io.ReadFull(ref.seed, salt)
@@ -180,6 +184,10 @@ func (ref *Ed25519BlockCipher) Encrypt(input []byte) ([]byte, error) {
 
 // Decrypt slice byte
 func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
+	if !ref.recipientKeyPair.HasPrivateKey() {
+		return nil, errors.New("cannot decrypt without private key of the recipient")
+	}
+
 	if len(input) < 64 {
 		return nil, errors.New("input is to short for decryption")
 	}
-- 
2.43.0


From 1f97642b658df8f740c57a9db47eae7ad67d840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/16] fix: build Signature.Bytes in a slice of its own

Appending to R wrote S into the spare capacity of R, that is over the S of
another signature parsed from the same buffer.
---
 signature.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..488481f 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,9 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	b = append(b, ref.R...)
+	return append(b, ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 606eb97367089a994241fb8d837eecba923cee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 06/16] fix: accept exactly the integers that fit 32 bytes in
 NewSignatureFromBigInt

Real signature parts were refused, negative and too large ones were truncated.
---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index 488481f..33d62a3 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From 06008b33cbf4ca1e71479c5a240b059358141845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 07/16] fix: keep leading zero bytes in NewPrivateKeyFromBigInt

The shortened key derived another public key than the same key given as bytes.
---
 key_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..9917a17 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,12 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		// val.Bytes drops the leading zero bytes of the key
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From 6e4318f27e4b78e285d0b51db6f319324df6fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 08/16] fix: recover x from y in MathUtils.ToGroupElement

v * x was used for v * x^2 and the sign test replaced x by its parity, so
no point could be built. The sign bit was also cleared in the argument.
---
 math.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math.go b/math.go
index 480e390..68f3fe8 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,9 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
+	// bit 255 is the sign of x and no part of y, the argument stays as it is
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
@@ -206,7 +207,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +217,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1 // final
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From e8dcc93f8e4a9ebece5ffb2840c472a2fd2ba40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 09/16] fix: convert from the PRECOMPUTED coordinate system in
 ToRepresentation

The affine coordinates are half of the difference and of the sum, not the
inverse of a product.
---
 math.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/math.go b/math.go
index 68f3fe8..4958926 100644
--- a/math.go
+++ b/math.go
@@ -288,12 +288,9 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
-
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		two := big.NewInt(2)
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), two)
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), two)
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From 079a069129b6a573864b34f7874ad066d4549070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 10/16] fix: keep the operand of XMulY_Plus_ZMulT_DelD

Multiplying into the shallow copy of x overwrote the words of the original,
which AddGroupElements still needs.
---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 4958926..ea8364f 100644
--- a/math.go
+++ b/math.go
@@ -539,8 +539,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// x is a shallow copy that shares its words with the argument
+	b := (&big.Int{}).Mul(&x, y)
+	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From 6e06f35acb0f546cbfce4fe7d3771cc3bf33d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 11/16] fix: refuse negative integers in MathUtils.ToByteArray

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index ea8364f..ba563a4 100644
--- a/math.go
+++ b/math.go
@@ -473,8 +473,8 @@ func (ref *mathUtils) ToEncodedFieldElement(b *big.Int) *Ed25519EncodedFieldElem
  */
 func (ref *mathUtils) ToByteArray(b *big.Int) []byte {
 
-	if b.Cmp(bigIntegerONE().Lsh(bigIntegerONE(), 256)) >= 0 {
-		panic(errors.New("only numbers < 2^256 are allowed"))
+	if b.Sign() < 0 || b.Cmp(bigIntegerONE().Lsh(bigIntegerONE(), 256)) >= 0 {
+		panic(errors.New("only numbers >= 0 and < 2^256 are allowed"))
 	}
 
 	original := utils.BigIntToByteArray(b, 32)
-- 
2.43.0


From 791539769331bab1f6dc9cef2bc0b90b8192c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 12/16] fix: keep the divisor of XMulY_Plus_ZMulT_DelD

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index ba563a4..8bdd6a4 100644
--- a/math.go
+++ b/math.go
@@ -541,7 +541,7 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
 	// x is a shallow copy that shares its words with the argument
 	b := (&big.Int{}).Mul(&x, y)
-	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From e070593a318885f2d163301cbf3fc2e826edb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 13/16] fix: reject public keys that are not 32 bytes in Verify

---
 ed25519_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index dfbc1fa..c03007a 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -312,7 +312,12 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 	// hReduced = h mod group order
 	hModQ := h.modQ()
 	// Must compute A.
-	A, err := (&Ed25519EncodedGroupElement{rawEncodedA}).Decode()
+	encodedA, err := NewEd25519EncodedGroupElement(rawEncodedA)
+	if err != nil {
+		fmt.Println(err)
+		return false
+	}
+	A, err := encodedA.Decode()
 	if err != nil {
 		fmt.Println(err)
 		return false
-- 
2.43.0


From 431647d8ad31b6f072e9202a1d072e5da607edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 14/16] fix: read all random bytes in GetRandomFieldElement

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 8bdd6a4..eb0641a 100644
--- a/math.go
+++ b/math.go
@@ -103,7 +103,7 @@ func (ref *mathUtils) GetRandomFieldElement() Ed25519FieldElement {
 
 	for j := range t {
 		var v [2]byte
-		_, err := rand.Read(v[:])
+		_, err := io.ReadFull(rand, v[:])
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From b86e17da9084c223b6f84f3ff9e3888424c79c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 15/16] fix: print group elements without a T coordinate

---
 ed25519_encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 05b61a7..783d916 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2899,10 +2899,14 @@ func (ref *Ed25519GroupElement) SatisfiesCurveEquation() bool {
 
 func (ref *Ed25519GroupElement) String() string {
 
+	t := ""
+	if ref.T != nil { // only some coordinate systems have a T
+		t = ref.T.String()
+	}
 	return fmt.Sprintf(
 		"X=%s\nY=%s\nZ=%s\nT=%s\n",
 		ref.X.String(),
 		ref.Y.String(),
 		ref.Z.String(),
-		ref.T.String())
+		t)
 }
-- 
2.43.0


From c559bcdf6e7a1f34bda34534158d062ade7f414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 16/16] fix: leave no half-built table when precomputing is
 refused

---
 ed25519_encode.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 783d916..38c9234 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2451,11 +2451,11 @@ func (ref *Ed25519GroupElement) PrecomputeForScalarMultiplication() {
 	}
 
 	Bi := ref.copy()
-	ref.precomputedForSingle = make([][]*Ed25519GroupElement, 32)
-	for i := range ref.precomputedForSingle {
-		ref.precomputedForSingle[i] = make([]*Ed25519GroupElement, 8)
+	table := make([][]*Ed25519GroupElement, 32)
+	for i := range table {
+		table[i] = make([]*Ed25519GroupElement, 8)
 		Bij := Bi.copy()
-		for j := range ref.precomputedForSingle[i] {
+		for j := range table[i] {
 			inverse := Bij.Z.invert()
 			x := Bij.X.multiply(inverse)
 			y := Bij.Y.multiply(inverse)
@@ -2463,7 +2463,7 @@ func (ref *Ed25519GroupElement) PrecomputeForScalarMultiplication() {
 			X := y.add(x)
 			Y := y.subtract(x)
 			Z := x.multiply(y).multiply(Ed25519Field.DTimesTWO)
-			ref.precomputedForSingle[i][j] = NewEd25519GroupElementPrecomputed(&X, &Y, &Z)
+			table[i][j] = NewEd25519GroupElementPrecomputed(&X, &Y, &Z)
 			Bij = Bij.add(Bi.toCached()).toP3()
 		}
 		// Only every second summand is precomputed (16^2 = 256).
@@ -2472,6 +2472,7 @@ func (ref *Ed25519GroupElement) PrecomputeForScalarMultiplication() {
 		}
 
 	}
+	ref.precomputedForSingle = table
 
 }
 
@@ -2482,9 +2483,9 @@ func (ref *Ed25519GroupElement) PrecomputeForDoubleScalarMultiplication() {
 		return
 	}
 
-	ref.precomputedForDouble = make([]*Ed25519GroupElement, 8)
+	table := make([]*Ed25519GroupElement, 8)
 	Bi := ref.copy()
-	for i := range ref.precomputedForDouble {
+	for i := range table {
 		inverse := Bi.Z.invert()
 		x := Bi.X.multiply(inverse)
 		y := Bi.Y.multiply(inverse)
@@ -2492,9 +2493,10 @@ func (ref *Ed25519GroupElement) PrecomputeForDoubleScalarMultiplication() {
 		X := y.add(x)
 		Y := y.subtract(x)
 		Z := x.multiply(y).multiply(Ed25519Field.DTimesTWO)
-		ref.precomputedForDouble[i] = NewEd25519GroupElementPrecomputed(&X, &Y, &Z)
+		table[i] = NewEd25519GroupElementPrecomputed(&X, &Y, &Z)
 		Bi = ref.add(ref.add(Bi.toCached()).toP3().toCached()).toP3()
 	}
+	ref.precomputedForDouble = table
 }
 
 /** Select
-- 
2.43.0


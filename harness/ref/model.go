package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"errors"
	"math/big"

	"vf/ref/ed"
)

var (
	One = big.NewInt(1)
	P   = new(big.Int).Sub(new(big.Int).Lsh(One, 255), big.NewInt(19))
	L   = func() *big.Int {
		r, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return r.Add(r, new(big.Int).Lsh(One, 252))
	}()
	D = func() *big.Int {
		r := new(big.Int).ModInverse(big.NewInt(121666), P)
		r.Mul(r, big.NewInt(-121665))
		return r.Mod(r, P)
	}()
	SqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, One), 2), P)
)

// LE reads a little-endian integer.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// ToLE writes v >= 0 as n little-endian bytes (it must fit).
func ToLE(v *big.Int, n int) []byte {
	r := make([]byte, n)
	v.FillBytes(r)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- affine model of the curve -x^2 + y^2 = 1 + d x^2 y^2 over big integers ----

type Aff struct{ X, Y *big.Int }

func OnCurve(a Aff) bool {
	x2 := new(big.Int).Mul(a.X, a.X)
	y2 := new(big.Int).Mul(a.Y, a.Y)
	l := new(big.Int).Sub(y2, x2)
	r := new(big.Int).Mul(x2, y2)
	r.Mul(r, D).Add(r, One)
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

func AddAff(a, b Aff) Aff {
	x1y2 := new(big.Int).Mul(a.X, b.Y)
	x2y1 := new(big.Int).Mul(b.X, a.Y)
	y1y2 := new(big.Int).Mul(a.Y, b.Y)
	x1x2 := new(big.Int).Mul(a.X, b.X)
	k := new(big.Int).Mul(x1y2, x2y1)
	k.Mul(k, D).Mod(k, P)
	dx := new(big.Int).Add(One, k)
	dy := new(big.Int).Sub(One, k)
	dy.Mod(dy, P)
	x := x1y2.Add(x1y2, x2y1)
	x.Mul(x, dx.ModInverse(dx, P)).Mod(x, P)
	y := y1y2.Add(y1y2, x1x2)
	y.Mul(y, dy.ModInverse(dy, P)).Mod(y, P)
	return Aff{x, y}
}

func NegAff(a Aff) Aff {
	x := new(big.Int).Neg(a.X)
	return Aff{x.Mod(x, P), new(big.Int).Set(a.Y)}
}

// AffOf gives the affine coordinates of a point of the fast model.
func AffOf(p *ed.Point) Aff {
	x, y := p.Affine()
	return Aff{LE(x), LE(y)}
}

func EncodeAff(a Aff) []byte {
	b := ToLE(a.Y, 32)
	b[31] |= byte(a.X.Bit(0)) << 7
	return b
}

// PointOf turns affine coordinates that are on the curve into a point.
func PointOf(a Aff) *ed.Point {
	p, err := new(ed.Point).SetBytes(EncodeAff(a))
	if err != nil {
		panic("ref: not on curve")
	}
	return p
}

// Decode decodes 32 bytes, y taken modulo p and a sign bit on x = 0 ignored;
// nil when the curve has no point with that y.
func Decode(b []byte) *ed.Point {
	if len(b) != 32 {
		return nil
	}
	p, err := new(ed.Point).SetBytes(b)
	if err != nil {
		return nil
	}
	return p
}

var (
	BasePoint = ed.NewGeneratorPoint()
	// Torsion[i] is i times a point of order 8.
	Torsion = func() [8]*ed.Point {
		var r [8]*ed.Point
		// find a point of order 8: L times a random point
		for y := int64(2); ; y++ {
			p := Decode(ToLE(big.NewInt(y), 32))
			if p == nil {
				continue
			}
			t := ed.ScalarMultBits(ToLE(L, 32), p)
			t4 := new(ed.Point).Add(t, t)
			t4.Add(t4, t4)
			if t4.Equal(ed.NewIdentityPoint()) == 1 {
				continue
			}
			r[0] = ed.NewIdentityPoint()
			for i := 1; i < 8; i++ {
				r[i] = new(ed.Point).Add(r[i-1], t)
			}
			return r
		}
	}()
)

// ---- keys, signatures, cipher ----

func Clamp(priv []byte) []byte {
	h := SHA3512(priv)[:32]
	h[0] &= 0xf8
	h[31] &= 0x7f
	h[31] |= 0x40
	return h
}

func ModL(b []byte) *big.Int { v := LE(b); return v.Mod(v, L) }

func scalar(v *big.Int) *ed.Scalar {
	s, err := new(ed.Scalar).SetCanonicalBytes(ToLE(v, 32))
	if err != nil {
		panic(err)
	}
	return s
}

// MulBase computes v*B for 0 <= v < L.
func MulBase(v *big.Int) *ed.Point { return new(ed.Point).ScalarBaseMult(scalar(v)) }

// Mul computes v*q for 0 <= v < L, also right for points with a torsion part.
func Mul(v *big.Int, q *ed.Point) *ed.Point { return ed.ScalarMultBits(ToLE(v, 32), q) }

func Pub(priv []byte) []byte { return MulBase(ModL(Clamp(priv))).Bytes() }

func Sign(priv, pub, msg []byte) []byte {
	h := SHA3512(priv)
	r := ModL(SHA3512(h[32:], msg))
	R := MulBase(r).Bytes()
	k := ModL(SHA3512(R, pub, msg))
	s := k.Mul(k, LE(Clamp(priv)))
	s.Add(s, r).Mod(s, L)
	return append(R, ToLE(s, 32)...)
}

// Verify is the specified predicate for 32-byte parts.
func Verify(pub, msg, r, s []byte) bool {
	if len(r) != 32 || len(s) != 32 || len(pub) != 32 {
		return false
	}
	S := LE(s)
	if S.Sign() == 0 || S.Cmp(L) >= 0 {
		return false
	}
	if bytes.Equal(pub, make([]byte, 32)) {
		return false
	}
	A := Decode(pub)
	if A == nil {
		return false
	}
	k := ModL(SHA3512(r, pub, msg))
	q := new(ed.Point).Subtract(MulBase(S), Mul(k, A))
	return bytes.Equal(q.Bytes(), r)
}

// Canonical tells whether the 32 bytes hold a y below p.
func Canonical(b []byte) bool {
	c := append([]byte{}, b...)
	c[31] &= 0x7f
	return LE(c).Cmp(P) < 0
}

var ErrRef = errors.New("ref: refused")

func SharedKey(priv, pub, salt []byte) ([]byte, error) {
	B := Decode(pub)
	if B == nil {
		return nil, ErrRef
	}
	k := ed.ScalarMultBits(Clamp(priv), B).Bytes()
	for i := range k {
		k[i] ^= salt[i]
	}
	return SHA3256(k), nil
}

func CBCEncrypt(key, iv, padded []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(padded))
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, padded)
	return out
}

func Pad(msg []byte) []byte {
	n := 16 - len(msg)%16
	return append(append([]byte{}, msg...), bytes.Repeat([]byte{byte(n)}, n)...)
}

func Encrypt(priv, pub, salt, iv, msg []byte) ([]byte, error) {
	k, err := SharedKey(priv, pub, salt)
	if err != nil {
		return nil, err
	}
	out := append(append([]byte{}, salt...), iv...)
	return append(out, CBCEncrypt(k, iv, Pad(msg))...), nil
}

func Decrypt(priv, pub, in []byte) ([]byte, error) {
	if len(in) < 64 || len(in)%16 != 0 {
		return nil, ErrRef
	}
	k, err := SharedKey(priv, pub, in[:32])
	if err != nil {
		return nil, err
	}
	c, err := aes.NewCipher(k)
	if err != nil {
		return nil, err
	}
	buf := make([]byte, len(in)-48)
	cipher.NewCBCDecrypter(c, in[32:48]).CryptBlocks(buf, in[48:])
	n := int(buf[len(buf)-1])
	if n == 0 || n > 16 || !bytes.Equal(buf[len(buf)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
		return nil, ErrRef
	}
	return buf[:len(buf)-n], nil
}

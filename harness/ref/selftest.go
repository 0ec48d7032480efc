package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"

	"vf/ref/ed"
)

// SelfTest checks the models against each other and against published vectors.
func SelfTest() error {
	hx := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
	if !bytes.Equal(Keccak256(nil), hx("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")) {
		return fmt.Errorf("keccak256")
	}
	if !bytes.Equal(Keccak256([]byte("abc")), hx("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")) {
		return fmt.Errorf("keccak256 abc")
	}
	for _, v := range [][2]string{
		{"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"},
		{"a", "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe"},
		{"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
		{"message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"},
		{"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "12a053384a9c0c88e405a06c27dcf49ada62eb2b"},
		{"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "9b752e45573d4b39f4dbd3323cab82bf63326bfb"},
	} {
		if !bytes.Equal(RIPEMD160([]byte(v[0])), hx(v[1])) {
			return fmt.Errorf("ripemd160 %q", v[0])
		}
	}
	buf := make([]byte, 600)
	for i := range buf {
		buf[i] = byte(i*i + 7*i)
	}
	for n := range buf {
		a := sha3.Sum256(buf[:n])
		if !bytes.Equal(Sponge(buf[:n], 136, 6, 32), a[:]) {
			return fmt.Errorf("sponge 256 %d", n)
		}
		b := sha3.Sum512(buf[:n])
		if !bytes.Equal(Sponge(buf[:n], 72, 6, 64), b[:]) {
			return fmt.Errorf("sponge 512 %d", n)
		}
	}
	// fast points against the affine big-integer model
	base := AffOf(BasePoint)
	if !OnCurve(base) || new(big.Int).Mod(new(big.Int).Mul(base.Y, big.NewInt(5)), P).Int64() != 4 || base.X.Bit(0) != 0 {
		return fmt.Errorf("base point")
	}
	acc := Aff{new(big.Int), big.NewInt(1)}
	fast := ed.NewIdentityPoint()
	for i := 0; i < 40; i++ {
		if !bytes.Equal(EncodeAff(acc), fast.Bytes()) || !bytes.Equal(EncodeAff(acc), MulBase(big.NewInt(int64(i))).Bytes()) {
			return fmt.Errorf("multiple %d", i)
		}
		acc = AddAff(acc, base)
		fast.Add(fast, BasePoint)
	}
	for i := 0; i < 24; i++ {
		k := ModL(SHA3512([]byte{byte(i)}))
		p := MulBase(k)
		if !bytes.Equal(p.Bytes(), Mul(k, BasePoint).Bytes()) {
			return fmt.Errorf("mul")
		}
		// bit-wise on the big-integer model
		a := Aff{new(big.Int), big.NewInt(1)}
		if i < 2 {
			for j := k.BitLen() - 1; j >= 0; j-- {
				a = AddAff(a, a)
				if k.Bit(j) == 1 {
					a = AddAff(a, base)
				}
			}
			if !bytes.Equal(EncodeAff(a), p.Bytes()) {
				return fmt.Errorf("big mul")
			}
		}
		q := AddAff(AffOf(p), AffOf(Torsion[i%8]))
		if !bytes.Equal(EncodeAff(q), new(ed.Point).Add(p, Torsion[i%8]).Bytes()) {
			return fmt.Errorf("torsion add")
		}
		if n := NegAff(q); !bytes.Equal(EncodeAff(n), new(ed.Point).Negate(PointOf(q)).Bytes()) {
			return fmt.Errorf("neg")
		}
	}
	if new(big.Int).Mod(new(big.Int).Mul(SqrtM1, SqrtM1), P).Cmp(new(big.Int).Sub(P, One)) != 0 {
		return fmt.Errorf("sqrt(-1)")
	}
	// the signature recipe with SHA-512 in the place of SHA3-512 is RFC 8032 Ed25519
	for i := 0; i < 8; i++ {
		seed := SHA256([]byte{byte(i), 1})
		msg := buf[:i*37]
		k := ed25519.NewKeyFromSeed(seed)
		h := sha512.Sum512(seed)
		az := append([]byte{}, h[:32]...)
		az[0] &= 0xf8
		az[31] = az[31]&0x7f | 0x40
		pub := MulBase(ModL(az)).Bytes()
		if !bytes.Equal(pub, k.Public().(ed25519.PublicKey)) {
			return fmt.Errorf("rfc8032 public key")
		}
		r512 := sha512.Sum512(append(append([]byte{}, h[32:]...), msg...))
		r := ModL(r512[:])
		R := MulBase(r).Bytes()
		k512 := sha512.Sum512(append(append(append([]byte{}, R...), pub...), msg...))
		s := ModL(k512[:])
		s.Mul(s, LE(az)).Add(s, r).Mod(s, L)
		if !bytes.Equal(append(append([]byte{}, R...), ToLE(s, 32)...), ed25519.Sign(k, msg)) {
			return fmt.Errorf("rfc8032 signature")
		}
		priv := seed
		p2 := Pub(priv)
		sig := Sign(priv, p2, msg)
		if !Verify(p2, msg, sig[:32], sig[32:]) {
			return fmt.Errorf("own verify")
		}
		sig[i] ^= 1
		if Verify(p2, msg, sig[:32], sig[32:]) {
			return fmt.Errorf("own verify accepts")
		}
		other := SHA256([]byte{byte(i), 2})
		k1, _ := SharedKey(priv, Pub(other), seed)
		k2, _ := SharedKey(other, p2, seed)
		if !bytes.Equal(k1, k2) {
			return fmt.Errorf("shared key")
		}
		ct, _ := Encrypt(priv, Pub(other), seed, other[:16], msg)
		pt, err := Decrypt(other, p2, ct)
		if err != nil || !bytes.Equal(pt, msg) {
			return fmt.Errorf("cipher round trip")
		}
	}
	return nil
}

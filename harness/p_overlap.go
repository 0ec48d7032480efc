package main

import (
	"bytes"
	"fmt"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- overlapping: arguments that lie in one buffer, side by side, on top of each other or partly so ----------

// overCase is one operation whose arguments are slices of one buffer filled from Seed.
type overCase struct {
	Seed uint64
	Op   string
	Off  []int // where the arguments begin
	Len  []int // lengths of those that may have any
	Cut  int   // bits: which slices end with their capacity
	How  int
}

const overSize = 320

func overlapping(quick, thorough int, ops ...string) *Facet {
	gen := func(t *rapid.T) overCase {
		c := overCase{Seed: rapid.Uint64().Draw(t, "seed"), Op: rapid.SampledFrom(ops).Draw(t, "op"), Cut: rapid.IntRange(0, 255).Draw(t, "cut"), How: rapid.IntRange(0, 59).Draw(t, "how")}
		for i := 0; i < 5; i++ {
			off := 16 * rapid.IntRange(0, 12).Draw(t, "block")
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 {
				off = c.Off[rapid.IntRange(0, i-1).Draw(t, "as")]
			}
			if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
				off += rapid.IntRange(-15, 15).Draw(t, "shift")
			}
			c.Off = append(c.Off, max(off, 0))
			n := rapid.SampledFrom([]int{0, 1, 16, 31, 32, 33, 48, 64, 96, 128}).Draw(t, "len")
			c.Len = append(c.Len, n)
		}
		return c
	}
	return F("overlapping", "two arguments share memory", quick, thorough, gen, checkOverlap)
}

func checkOverlap(c overCase, rec *Rec) error {
	arena := expand(c.Seed, overSize)
	var spans [][2]int
	sl := func(i, n int) []byte {
		o := c.Off[i]
		if o+n > len(arena) {
			o = len(arena) - n
		}
		for _, s := range spans {
			if o < s[1] && s[0] < o+n {
				rec.NT()
				if s == [2]int{o, o + n} {
					rec.Class("%s: same slice", c.Op)
				} else {
					rec.Class("%s: overlap", c.Op)
				}
			}
		}
		spans = append(spans, [2]int{o, o + n})
		if c.Cut>>i&1 == 1 {
			return arena[o : o+n : o+n]
		}
		return arena[o : o+n]
	}
	var before []byte
	start := func() { before = dup(arena) }
	// pair gives a pair of these very slices.
	pair := func(priv, pub []byte) (*xc.KeyPair, error) {
		var sk *xc.PrivateKey
		if priv != nil {
			sk = xc.NewPrivateKey(priv)
		}
		return xc.NewKeyPair(sk, xc.NewPublicKey(pub), engineOf(c.How))
	}
	run := func() error {
		switch c.Op {
		case "derive":
			priv := sl(0, 32)
			start()
			kp, err := xc.NewKeyPair(xc.NewPrivateKey(priv), nil, engineOf(c.How))
			if err != nil {
				return err
			}
			return same("public key", kp.PublicKey.Raw, ref.Pub(dup(priv)))
		case "sign":
			priv, pub, msg := sl(0, 32), sl(1, 32), sl(2, c.Len[2])
			copy(pub, ref.Pub(priv))
			start()
			kp, err := pair(priv, pub)
			if err != nil {
				return err
			}
			want := ref.Sign(dup(priv), dup(pub), dup(msg))
			sig, err := signerOf(kp, c.How).Sign(msg)
			if err != nil {
				return err
			}
			return same("signature", sig.Bytes(), want)
		case "verify":
			if c.How%3 > 0 { // the signature is apart
				c.Off = append([]int{}, c.Off...)
				c.Off[1], c.Off[2], c.Off[3] = min(c.Off[1], 128), 256, 288
			}
			pub, msg, r, s := sl(0, 32), sl(1, c.Len[1]), sl(2, 32), sl(3, 32)
			key := expand(c.Seed+1, 32)
			copy(pub, ref.Pub(key))
			for i := 0; i < 2; i++ { // once more for messages that hold a part of the signature
				sig := ref.Sign(key, dup(pub), dup(msg))
				copy(r, sig[:32])
				copy(s, sig[32:])
			}
			start()
			kp, err := pair(nil, pub)
			if err != nil {
				return err
			}
			want := ref.Verify(dup(pub), dup(msg), dup(r), dup(s))
			rec.Class("verify: %v", want)
			if got := signerOf(kp, c.How).Verify(msg, &xc.Signature{R: r, S: s}); got != want {
				return fmt.Errorf("Verify returned %v for key %x, message %x, R %x, S %x, all in one buffer", got, pub, msg, r, s)
			}
			return nil
		case "canonical":
			r, s := sl(0, 32), sl(1, 32)
			start()
			want := append(dup(r), s...)
			sig := &xc.Signature{R: r, S: s}
			d := xc.NewEd25519DsaSigner(mustPair(expand(c.Seed, 32), nil, 0))
			if got, v := d.IsCanonicalSignature(sig), ref.LE(s); got != (v.Sign() > 0 && v.Cmp(ref.L) < 0) {
				return fmt.Errorf("canonical %v for S %x", got, s)
			}
			k, err := d.MakeSignatureCanonical(sig)
			if err != nil {
				return err
			}
			if err := same("canonical signature", k.Bytes(), append(dup(r), leB(ref.ModL(s), 32)...)); err != nil {
				return err
			}
			if err := same("signature", sig.Bytes(), want); err != nil {
				return err
			}
			if c.How%2 == 0 {
				return nil
			}
			p, err := xc.NewSignatureFromBytes(sl(2, 64))
			if err != nil {
				return err
			}
			q, err := d.MakeSignatureCanonical(p)
			if err != nil {
				return err
			}
			b := sl(2, 64)
			return first(same("canonical signature", q.Bytes(), append(dup(b[:32]), leB(ref.ModL(b[32:]), 32)...)), same("parsed signature", p.Bytes(), b))
		case "encrypt":
			a, b, msg, src := sl(0, 32), sl(1, 32), sl(2, c.Len[2]), sl(3, 48)
			copy(b, ref.Pub(expand(c.Seed+1, 32)))
			start()
			want, err := ref.Encrypt(dup(a), dup(b), dup(src[:32]), dup(src[32:]), dup(msg))
			if err != nil { // the key was overwritten
				panic(harnessError("key lost"))
			}
			// the sender's public key is of no importance here
			from, err := pair(a, sl(4, 32))
			if err != nil {
				return err
			}
			to, err := pair(nil, b)
			if err != nil {
				return err
			}
			got, err := xc.NewEd25519BlockCipher(from, to, bytes.NewReader(src)).Encrypt(msg)
			if err != nil {
				return err
			}
			return same("ciphertext", got, want)
		case "decrypt":
			n := 64 + 16*(c.Len[2]/16)
			b, ct, a := sl(0, 32), sl(2, n), sl(1, 32)
			key := expand(c.Seed+1, 32)
			copy(a, ref.Pub(key))
			msg := expand(c.Seed+2, n-48-1-int(c.Seed%16))
			good, err := ref.Encrypt(key, ref.Pub(dup(b)), dup(ct[:32]), dup(ct[32:48]), msg)
			if err != nil {
				panic(harnessError("own key refused"))
			}
			copy(ct[48:], good[48:])
			start()
			want, werr := ref.Decrypt(dup(b), dup(a), dup(ct))
			rec.Class("decrypt: %v", werr == nil)
			to, err := pair(b, sl(3, 32))
			if err != nil {
				return err
			}
			from, err := pair(nil, a)
			if err != nil {
				return err
			}
			got, err := cipherOf(from, to, nil, c.How).Decrypt(ct)
			if (err != nil) != (werr != nil) {
				return fmt.Errorf("decrypting %x, all in one buffer, gives error %v, the format says %v", ct, err, werr)
			}
			return same("plaintext", got, want)
		case "shared":
			a, b, salt := sl(0, 32), sl(1, 32), sl(2, 32)
			copy(b, ref.Pub(expand(c.Seed+1, 32)))
			start()
			want, err := ref.SharedKey(dup(a), dup(b), dup(salt))
			if err != nil {
				panic(harnessError("key lost"))
			}
			bc := xc.NewEd25519BlockCipher(mustPair(nil, b, 0), mustPair(nil, b, 0), nil)
			got, err := bc.GetSharedKey(xc.NewPrivateKey(a), xc.NewPublicKey(b), salt)
			if err != nil {
				return err
			}
			return same("shared key", got, want)
		case "hash":
			var parts [][]byte
			var all []byte
			for i := 0; i <= c.How%5; i++ {
				p := sl(i, c.Len[i])
				parts, all = append(parts, p), append(all, p...)
			}
			start()
			got, err := xc.HashesSha3_512(parts...)
			if err != nil {
				return err
			}
			return same(fmt.Sprintf("SHA3-512 of %d overlapping parts", len(parts)), got, ref.SHA3512(all))
		case "scalars":
			if xc.VX.MulAddQ == nil {
				start()
				return nil
			}
			var e [3]*xc.Ed25519EncodedFieldElement
			var v [3][]byte
			for i := range e {
				v[i] = sl(i, 32)
				for j := 0; j < i; j++ { // the same slice is the same object, in half the cases
					if c.Off[j] == c.Off[i] && c.How%2 == 0 {
						e[i] = e[j]
					}
				}
				if e[i] == nil {
					var err error
					if e[i], err = xc.NewEd25519EncodedFieldElement(v[i]); err != nil {
						return err
					}
				}
			}
			start()
			w := ref.LE(v[0])
			w.Mul(w, ref.LE(v[1])).Add(w, ref.LE(v[2])).Mod(w, ref.L)
			return same("a*b+c", xc.VX.MulAddQ(e[0], e[1], e[2]).Raw, leB(w, 32))
		}
		panic(harnessError("operation " + c.Op))
	}
	if err := run(); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	if !bytes.Equal(arena, before) {
		return fmt.Errorf("%s changes its arguments: %x before, %x after", c.Op, before, arena)
	}
	return nil
}

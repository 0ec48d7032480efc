package main

import (
	"bytes"
	"errors"
	"fmt"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- after failures: one operation that must succeed after many that fail ----------

type failsCase struct {
	Kind  string
	Seed  uint64
	N     int // failures in a row
	How   int // what fails, and which engine and wrapper are used
	Again int // rounds
}

// brokenReader fails n times, at different points, then delivers src; what it
// handed out before a failure is not part of src. It may panic where others
// return an error.
type brokenReader struct {
	n      int
	part   int
	src    []byte
	panics bool
}

var errBroken = errors.New("source is broken")

func (r *brokenReader) Read(p []byte) (int, error) {
	if r.n > 0 {
		if r.part > 0 {
			k := min(r.part, len(p))
			r.part -= k
			for i := range p[:k] {
				p[i] = 0xa5
			}
			return k, nil
		}
		r.n--
		r.part = []int{0, 1, 20, 31, 0}[r.n%5]
		if r.panics {
			panic(errBroken)
		}
		return 0, errBroken
	}
	k := copy(p, r.src)
	r.src = r.src[k:]
	return k, nil
}

// failing returns what fails at its i-th call and what must succeed after it.
func (c failsCase) build() (bad func(i int) error, good func() error) {
	a, b := expand(c.Seed, 32), expand(c.Seed+1, 32)
	pa, pb := ref.Pub(a), ref.Pub(b)
	msg := expand(c.Seed+2, int(c.Seed%50))
	noPoint := bytes.Repeat([]byte{2}, 32)
	for ref.Decode(noPoint) != nil {
		noPoint[0]++
	}
	junk := func(i, n int) []byte { return expand(c.Seed+uint64(i)+10, n) }
	wrongly := func(ok bool, what string, i int) error {
		if !ok {
			return nil
		}
		return fmt.Errorf("%s (%d) succeeds", what, i)
	}
	switch c.Kind {
	case "verify":
		d := signerOf(mustPair(nil, pa, c.How), c.How)
		sig := ref.Sign(a, pa, msg)
		bad = func(i int) error {
			m, s := dup(msg), sigOf(sig[:32], sig[32:])
			switch (c.How + i*(c.How%2)) % 6 {
			case 0:
				m = append(m, byte(i))
			case 1:
				s.S[i%31] ^= 1 << (i % 8)
			case 2:
				s.R[i%32] ^= 1 << (i % 8)
			case 3:
				s.S = s.S[:i%32]
			case 4:
				s.S = make([]byte, 32)
			case 5:
				s.R = junk(i, 33)
			}
			return wrongly(d.Verify(m, s), "verification of a bad signature", i)
		}
		good = func() error {
			if !d.Verify(dup(msg), sigOf(sig[:32], sig[32:])) {
				return fmt.Errorf("signature %x of %x under %x is rejected", sig, msg, pa)
			}
			return nil
		}
	case "bad-keys":
		sig := ref.Sign(a, pa, msg)
		d := signerOf(mustPair(nil, pa, c.How), c.How)
		bad = func(i int) error {
			k := dup(noPoint)
			if i%3 == 1 {
				k = make([]byte, 32)
			}
			return wrongly(signerOf(mustPair(nil, k, c.How), c.How).Verify(msg, sigOf(sig[:32], sig[32:])), "verification under a bad key", i)
		}
		good = func() error {
			if !d.Verify(dup(msg), sigOf(sig[:32], sig[32:])) || !signerOf(mustPair(nil, pa, c.How), c.How+1).Verify(dup(msg), sigOf(sig[:32], sig[32:])) {
				return fmt.Errorf("signature %x of %x under %x is rejected", sig, msg, pa)
			}
			return nil
		}
	case "no-private-key":
		kp := mustPair(nil, pa, c.How)
		d, e := signerOf(kp, c.How), cipherOf(kp, kp, nil, c.How)
		other := signerOf(mustPair(a, nil, c.How), c.How)
		bad = func(i int) error {
			if i%2 == 0 {
				sig, err := d.Sign(msg)
				return wrongly(err == nil || sig != nil, "signing without a private key", i)
			}
			ct, err := e.Encrypt(msg)
			return wrongly(err == nil || ct != nil, "encrypting without a private key", i)
		}
		good = func() error {
			sig, err := other.Sign(dup(msg))
			if err != nil {
				return err
			}
			if !d.Verify(msg, sig) {
				return fmt.Errorf("the signature of the other signer is rejected")
			}
			return same("signature", sig.Bytes(), ref.Sign(a, pa, msg))
		}
	case "decrypt":
		e := cipherOf(mustPair(nil, pb, c.How), mustPair(a, nil, 0), nil, c.How)
		ct, err := ref.Encrypt(a, pb, junk(1, 32), junk(2, 16), msg)
		if err != nil {
			panic(harnessError("own key refused"))
		}
		bad = func(i int) error {
			in := dup(ct)
			switch (c.How + i*(c.How%2)) % 4 {
			case 0:
				in = in[:i%64]
			case 1:
				in = append(in, 1)
			case 2:
				in[len(in)-1-16*min(1, (len(in)-48)/16-1)] ^= 0x80 // the padding, or the IV
				if len(in) == 64 {
					in[63] ^= 0x80
					in[47] ^= 0x80
				}
			case 3:
				in[i%32] ^= 1
			}
			want, werr := ref.Decrypt(a, pb, in)
			got, err := e.Decrypt(in)
			if (err != nil) != (werr != nil) {
				return fmt.Errorf("decrypting %x: error %v, the format says %v", in, err, werr)
			}
			if err != nil {
				want = nil
			}
			return same("plaintext", got, want)
		}
		good = func() error {
			got, err := e.Decrypt(dup(ct))
			if err != nil {
				return fmt.Errorf("a good ciphertext is refused: %v", err)
			}
			return same("plaintext", got, msg)
		}
	case "bad-senders":
		to := mustPair(a, nil, 0)
		e := cipherOf(mustPair(nil, pb, c.How), to, nil, c.How)
		ct, err := ref.Encrypt(a, pb, junk(1, 32), junk(2, 16), msg)
		if err != nil {
			panic(harnessError("own key refused"))
		}
		bad = func(i int) error {
			got, err := cipherOf(mustPair(nil, noPoint, c.How), to, nil, c.How).Decrypt(dup(ct))
			return wrongly(err == nil || got != nil, "decryption from a bad sender", i)
		}
		good = func() error {
			got, err := e.Decrypt(dup(ct))
			if err != nil {
				return fmt.Errorf("a good ciphertext is refused: %v", err)
			}
			return same("plaintext", got, msg)
		}
	case "encrypt":
		src := &brokenReader{}
		e := xc.NewEd25519BlockCipher(mustPair(a, nil, 0), mustPair(nil, pb, 0), src)
		bad = func(i int) error {
			*src = brokenReader{n: 1, part: []int{0, 1, 31, 32, 33, 47}[i%6], panics: i%4 == c.How%4}
			var ct []byte
			var err error
			if try(func() { ct, err = e.Encrypt(msg) }) && src.panics {
				return nil
			}
			return wrongly(err == nil || ct != nil, "encryption without randomness", i)
		}
		good = func() error {
			r := junk(3, 48)
			*src = brokenReader{src: dup(r)}
			got, err := e.Encrypt(dup(msg))
			if err != nil {
				return fmt.Errorf("refused although the source delivers: %v", err)
			}
			want, err := ref.Encrypt(a, pb, r[:32], r[32:], msg)
			if err != nil {
				panic(harnessError("own key refused"))
			}
			return same("ciphertext", got, want)
		}
	case "generate":
		src := &brokenReader{}
		g := xc.NewEd25519KeyGenerator(src)
		bad = func(i int) error {
			*src = brokenReader{n: 1, part: []int{0, 1, 16, 31}[i%4], panics: i%3 == c.How%3}
			var kp *xc.KeyPair
			var err error
			if try(func() { kp, err = g.GenerateKeyPair() }) && src.panics {
				return nil
			}
			return wrongly(err == nil || kp != nil, "generation without randomness", i)
		}
		good = func() error {
			*src = brokenReader{src: dup(a)}
			kp, err := g.GenerateKeyPair()
			if err != nil {
				return fmt.Errorf("refused although the source delivers: %v", err)
			}
			return first(same("private key", kp.PrivateKey.Raw, a), same("public key", kp.PublicKey.Raw, pa))
		}
	case "shared":
		e := xc.NewEd25519BlockCipher(mustPair(nil, pb, 0), mustPair(nil, pb, 0), nil)
		salt := junk(1, 32)
		bad = func(i int) error {
			k := dup(noPoint)
			if i%3 == 1 {
				k = k[:i%32]
			}
			got, err := e.GetSharedKey(xc.NewPrivateKey(a), xc.NewPublicKey(k), salt)
			return wrongly(err == nil || got != nil, "a shared key with no point", i)
		}
		good = func() error {
			got, err := e.GetSharedKey(xc.NewPrivateKey(a), xc.NewPublicKey(pb), salt)
			if err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			want, err := ref.SharedKey(a, pb, salt)
			if err != nil {
				panic(harnessError("own key refused"))
			}
			return same("shared key", got, want)
		}
	case "decode":
		e, f := encG(dup(noPoint)), encG(dup(pa))
		bad = func(i int) error {
			if i%2 == 1 {
				e = encG(dup(noPoint))
			}
			_, err := e.Decode()
			return wrongly(err == nil, "decoding of no point", i)
		}
		good = func() error {
			for _, g := range []*xc.Ed25519EncodedGroupElement{f, encG(dup(pa))} {
				p, err := g.Decode()
				if err != nil {
					return fmt.Errorf("the point %x is refused: %v", pa, err)
				}
				if err := eqAff("decoded", p, xc.P3, ref.AffOf(ref.Decode(pa))); err != nil {
					return err
				}
			}
			return nil
		}
	case "parse":
		sig := ref.Sign(a, pa, msg)
		text := hx(a)
		bad = func(i int) error {
			switch i % 4 {
			case 0:
				_, err := xc.NewSignatureFromBytes(sig[:i%64])
				return wrongly(err == nil, "parsing a short signature", i)
			case 1:
				_, err := xc.NewPrivateKeyfromHexString(text[:i%64])
				return wrongly(err == nil, "parsing a short private key", i)
			case 2:
				_, err := xc.NewPublicKeyfromHex("x" + text[1:])
				return wrongly(err == nil, "parsing a malformed public key", i)
			}
			_, err := xc.NewKeyPair(nil, xc.NewPublicKey(sig[:i%32]), engineOf(c.How))
			return wrongly(err == nil, "a pair with a short key", i)
		}
		good = func() error {
			s, err1 := xc.NewSignatureFromBytes(sig)
			k, err2 := xc.NewPrivateKeyfromHexString(text)
			p, err3 := xc.NewPublicKeyfromHex(text)
			if err := first(err1, err2, err3); err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			return first(same("signature", s.Bytes(), sig), same("private key", k.Raw, a), same("public key", p.Raw, a))
		}
	default:
		panic(harnessError("kind " + c.Kind))
	}
	return bad, good
}

func afterFailures(quick, thorough int, kinds ...string) *Facet {
	gen := func(t *rapid.T) failsCase {
		c := failsCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed"), How: rapid.IntRange(0, 59).Draw(t, "how"), Again: rapid.IntRange(1, 2).Draw(t, "rounds")}
		switch rapid.IntRange(0, 9).Draw(t, "many") {
		case 0, 1:
			c.N = rapid.IntRange(10, 60).Draw(t, "n")
		case 2:
			c.N = rapid.IntRange(60, 150).Draw(t, "n")
		default:
			c.N = rapid.IntRange(1, 10).Draw(t, "n")
		}
		return c
	}
	var edges []failsCase
	for i, k := range kinds {
		edges = append(edges, failsCase{k, uint64(i), 1100, 2 * i, 1}, failsCase{k, uint64(i) + 9, 260, 2*i + 1, 2})
	}
	return F("after-failures", "more than one failure in a row", quick, thorough, gen, func(c failsCase, rec *Rec) error {
		if c.N > 1 {
			rec.NT()
		}
		rec.Class("%s", c.Kind)
		bad, good := c.build()
		for r := 0; r < c.Again; r++ {
			if r > 0 || c.How%3 == 0 {
				if err := good(); err != nil {
					return fmt.Errorf("%s, round %d: %w", c.Kind, r, err)
				}
			}
			for i := 0; i < c.N; i++ {
				if err := bad(i); err != nil {
					return fmt.Errorf("%s, round %d: %w", c.Kind, r, err)
				}
			}
			if err := good(); err != nil {
				return fmt.Errorf("%s, after %d failures: %w", c.Kind, c.N, err)
			}
		}
		return nil
	}, edges...)
}

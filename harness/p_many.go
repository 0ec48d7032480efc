package main

import (
	"bytes"
	"fmt"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- many uses: what counts, fills tables or runs out shows after thousands of calls ----------

// manyCase is N uses of the same Keys objects, with data drawn from Seed.
type manyCase struct {
	Seed uint64
	N    int
	Keys int // how many keys take turns
	How  int
}

// many builds the facet; n is the number of uses of the fixed cases.
func many(quick, thorough, n int, check func(manyCase, *Rec) error) *Facet {
	gen := func(t *rapid.T) manyCase {
		c := manyCase{Seed: rapid.Uint64().Draw(t, "seed"), N: rapid.IntRange(1, max(n/4, 20)).Draw(t, "n"), How: rapid.IntRange(0, 59).Draw(t, "how")}
		c.Keys = rapid.SampledFrom([]int{1, 2, 3, 5, 17, 40, 120}).Draw(t, "keys")
		return c
	}
	return F("many-uses", "at least 100 uses", quick, thorough, gen, func(c manyCase, rec *Rec) error {
		if c.N >= 100 {
			rec.NT()
		}
		rec.Class("%d keys", c.Keys)
		return check(c, rec)
	}, manyCase{1, n, 1, 3}, manyCase{2, n, 1, 2}, manyCase{3, n, 40, 3}, manyCase{4, n, n/3 + 1, 3}, manyCase{5, n, 300, 1}, manyCase{6, n, 2, 8})
}

// turns calls f for each use with the index of the key whose turn it is: in
// order, in order of recent use, or at random.
func (c manyCase) turns(f func(i, k int, m *mix) error) error {
	m := mix(c.Seed)
	last := 0
	for i := 0; i < c.N; i++ {
		k := i % c.Keys
		switch m.next() % 4 {
		case 0:
			k = int(m.next() % uint64(c.Keys))
		case 1:
			k = last
		}
		last = k
		if err := f(i, k, &m); err != nil {
			return fmt.Errorf("use %d, key %d: %w", i, k, err)
		}
	}
	return nil
}

func (c manyCase) key(k int) []byte { return expand(c.Seed<<20+uint64(k), 32) }

// lazily builds the object of a key when its turn comes first.
func lazily[T any](n int, build func(k int) T) func(k int) T {
	have, objs := make([]bool, n), make([]T, n)
	return func(k int) T {
		if !have[k] {
			have[k], objs[k] = true, build(k)
		}
		return objs[k]
	}
}

func (m *mix) message() []byte { return expand(m.next(), int(m.next()%80)) }

func manySign(c manyCase, rec *Rec) error {
	type signing struct {
		pub      []byte
		sign, vr dsa
	}
	obj := lazily(c.Keys, func(k int) signing {
		kp := mustPair(c.key(k), nil, c.How)
		return signing{ref.Pub(c.key(k)), signerOf(kp, c.How), signerOf(mustPair(nil, kp.PublicKey.Raw, c.How), c.How+k)}
	})
	return c.turns(func(i, k int, m *mix) error {
		o, msg := obj(k), m.message()
		sig, err := o.sign.Sign(msg)
		if err != nil {
			return err
		}
		if m.next()%4 == 0 {
			return nil
		}
		if !o.vr.Verify(msg, sig) || m.next()%3 == 0 && !o.sign.Verify(msg, sig) {
			return fmt.Errorf("signature %x of %x does not verify under %x", sig.Bytes(), msg, o.pub)
		}
		return nil
	})
}

func manyExact(c manyCase, rec *Rec) error {
	obj := lazily(c.Keys, func(k int) dsa { return signerOf(mustPair(c.key(k), nil, c.How), c.How) })
	return c.turns(func(i, k int, m *mix) error {
		msg := m.message()
		sig, err := obj(k).Sign(msg)
		if err != nil {
			return err
		}
		defer overwrite(sig.R, 1)
		defer overwrite(sig.S, 2)
		return spent("signature", sig.Bytes(), ref.Sign(c.key(k), ref.Pub(c.key(k)), msg))
	})
}

func manyVerify(c manyCase, rec *Rec) error {
	obj := lazily(c.Keys, func(k int) dsa { return signerOf(mustPair(nil, ref.Pub(c.key(k)), c.How), c.How) })
	var kept [][]byte // message, signature and key used before
	return c.turns(func(i, k int, m *mix) error {
		pub := ref.Pub(c.key(k))
		msg := m.message()
		sig := ref.Sign(c.key(k), pub, msg)
		switch m.next() % 8 {
		case 0:
			sig[m.next()%64] ^= 1 << (m.next() % 8)
		case 1:
			msg = append(msg, byte(m.next()))
		case 2: // of another key
			sig = ref.Sign(c.key(k+1), ref.Pub(c.key(k+1)), msg)
		case 3, 4: // something seen before, perhaps with another key
			if len(kept) > 0 {
				j := int(m.next()%uint64(len(kept)/2)) * 2
				msg, sig = kept[j], kept[j+1]
			}
		}
		if len(kept) < 400 {
			kept = append(kept, msg, sig)
		}
		want := ref.Verify(pub, msg, sig[:32], sig[32:])
		if got := obj(k).Verify(dup(msg), sigOf(sig[:32], sig[32:])); got != want {
			return fmt.Errorf("Verify returned %v for key %x, signature %x, message %x", got, pub, sig, msg)
		}
		return nil
	})
}

func manyDerive(c manyCase, rec *Rec) error {
	g := engineOf(c.How)
	if g == nil {
		g = xc.CryptoEngines.DefaultEngine
	}
	gen := g.CreateKeyGenerator()
	return c.turns(func(i, k int, m *mix) error {
		key := c.key(k)
		return spent(fmt.Sprintf("public key of %x", key), gen.DerivePublicKey(xc.NewPrivateKey(key)).Raw, ref.Pub(key))
	})
}

func manyGenerate(c manyCase, rec *Rec) error {
	src := Source{Seed: c.Seed, End: -1}.reader()
	if c.How%2 == 1 {
		src.s.Chunks = []int{13, 40, 7}
	}
	gen := xc.NewEd25519KeyGenerator(src)
	for i := 0; i < c.N; i++ {
		kp, err := gen.GenerateKeyPair()
		if err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		want := src.at(32*i, 32)
		if !bytes.Equal(kp.PrivateKey.Raw, want) || !bytes.Equal(kp.PublicKey.Raw, ref.Pub(want)) {
			return fmt.Errorf("generation %d: pair %x %x, the source delivered %x", i, kp.PrivateKey.Raw, kp.PublicKey.Raw, want)
		}
		if i%3 == 0 {
			overwrite(kp.PrivateKey.Raw, 3)
			overwrite(kp.PublicKey.Raw, 4)
		}
	}
	return nil
}

// manyCiphers encrypts, reads back and reads foreign ciphertexts with the same ciphers.
func manyCiphers(c manyCase, rec *Rec) error {
	type ciphers struct {
		a, b    []byte
		enc     xc.BlockCipher
		own, to xc.BlockCipher
		src     *srcReader
	}
	obj := lazily(c.Keys, func(k int) ciphers {
		a, b := c.key(2*k), c.key(2*k+1)
		src := Source{Seed: c.Seed + uint64(k), End: -1}.reader()
		pa, pb := mustPair(a, nil, c.How), mustPair(b, nil, c.How)
		return ciphers{a, b, cipherOf(pa, mustPair(nil, pb.PublicKey.Raw, 0), src, 0), cipherOf(pb, pa, nil, c.How), cipherOf(mustPair(nil, pa.PublicKey.Raw, 0), pb, nil, c.How+1), src}
	})
	type kept struct {
		k       int
		ct, msg []byte
	}
	var past []kept
	return c.turns(func(i, k int, m *mix) error {
		if n := uint64(len(past)); n > 0 && m.next()%3 == 0 { // read an earlier one again, more often a recent one
			j := m.next() % n
			if m.next()%2 == 0 {
				j = n - 1 - m.next()%min(n, 6)
			}
			got, err := obj(past[j].k).to.Decrypt(dup(past[j].ct))
			if err != nil {
				return fmt.Errorf("ciphertext %d of key %d again: %v", j, past[j].k, err)
			}
			return spent(fmt.Sprintf("plaintext of ciphertext %d of key %d again", j, past[j].k), got, past[j].msg)
		}
		o, msg := obj(k), m.message()
		r := o.src.at(o.src.pos, 48)
		want, err := ref.Encrypt(o.a, ref.Pub(o.b), r[:32], r[32:], msg)
		if err != nil {
			panic(harnessError("reference refuses an honest key"))
		}
		if m.next()%3 > 0 {
			ct, err := o.enc.Encrypt(dup(msg))
			if err != nil {
				return err
			}
			if err := spent("ciphertext", ct, want); err != nil {
				return err
			}
		} else {
			o.src.at(o.src.pos, 48)
			want, _ = ref.Encrypt(o.a, ref.Pub(o.b), expand(m.next(), 32), expand(m.next(), 16), msg)
		}
		switch m.next() % 4 {
		case 0:
			past = append(past, kept{k, dup(want), msg})
			return nil
		case 1:
			want[48+m.next()%uint64(len(want)-48)] ^= 1 << (m.next() % 8)
		}
		dec := o.to
		plain, werr := ref.Decrypt(o.b, ref.Pub(o.a), want)
		if m.next()%4 == 0 { // the sender reads it
			dec = o.own
		}
		got, err := dec.Decrypt(dup(want))
		if (err != nil) != (werr != nil) {
			return fmt.Errorf("decrypting %x gives error %v, the format says %v", want, err, werr)
		}
		if werr != nil {
			if len(got) > 0 {
				return fmt.Errorf("error and plaintext %x", got)
			}
			return nil
		}
		if bytes.Equal(plain, msg) {
			past = append(past, kept{k, dup(want), msg})
		}
		return spent("plaintext", got, plain)
	})
}

func manyShared(c manyCase, rec *Rec) error {
	bc := xc.NewEd25519BlockCipher(mustPair(c.key(0), nil, 0), mustPair(c.key(1), nil, 0), nil)
	return c.turns(func(i, k int, m *mix) error {
		a, pub, salt := c.key(k), ref.Pub(c.key(int(m.next()%uint64(c.Keys)))), expand(m.next()%8, 32)
		got, err := bc.GetSharedKey(xc.NewPrivateKey(dup(a)), xc.NewPublicKey(dup(pub)), dup(salt))
		if err != nil {
			return err
		}
		want, err := ref.SharedKey(a, pub, salt)
		if err != nil {
			panic(harnessError("reference refuses an honest key"))
		}
		return spent("shared key", got, want)
	})
}

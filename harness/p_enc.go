package main

import (
	"bytes"
	"fmt"
	"slices"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

// ---------- E01 ----------

type rtCase struct {
	A, B  Hex
	Self  bool // recipient and sender are the same pair
	Msgs  []Blob
	Order uint64 // order of the decryptions
	How   int
}

func genRT(n, max int, long bool) func(t *rapid.T) rtCase {
	return func(t *rapid.T) rtCase {
		c := rtCase{A: genPrivAny(t), B: genPrivAny(t), Self: rapid.IntRange(0, 5).Draw(t, "self") == 0, Order: rapid.Uint64().Draw(t, "order"), How: rapid.IntRange(0, 119).Draw(t, "how")}
		k := rapid.IntRange(1, n).Draw(t, "n")
		for i := 0; i < k; i++ {
			if long {
				c.Msgs = append(c.Msgs, genBlobN(t, genLong(t, max/8, max)))
			} else {
				c.Msgs = append(c.Msgs, genBlob(t, max))
			}
		}
		if a, b := rarePair(t); a != nil {
			c.A, c.B = a, b
		}
		return c
	}
}

func permutation(n int, seed uint64) []int {
	p := make([]int, n)
	m := mix(seed)
	for i := range p {
		j := int(m.next() % uint64(i+1))
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func checkE01(c rtCase, rec *Rec) error {
	if c.Self {
		c.B = c.A
	}
	a, b := mustPair(c.A, nil, c.How), mustPair(c.B, nil, c.How/2)
	pa, pb := mustPair(nil, a.PublicKey.Raw, c.How/3), mustPair(nil, b.PublicKey.Raw, c.How/4)
	if c.Self && c.How%2 == 0 {
		b = a // the very same object
	}
	enc := cipherOf(a, b, nil, c.How)
	if c.How%3 == 0 {
		enc = cipherOf(a, pb, nil, c.How) // the sender knows only the public key
	}
	var cts [][]byte
	for i, m := range c.Msgs {
		msg := m.Bytes()
		rec.Class("%s", lenClass(len(msg)))
		if len(msg)%16 == 0 {
			rec.Class("whole blocks")
		}
		if m.Special() || len(msg) == 0 || len(c.Msgs) > 1 || c.Self {
			rec.NT()
		}
		var in []byte
		if len(msg) > 0 || c.How%2 == 0 {
			in = dup(msg)
		}
		ct, err := enc.Encrypt(in)
		if err != nil {
			return fmt.Errorf("encrypting message %d of %d bytes: %v", i, len(msg), err)
		}
		if want := 48 + len(msg)/16*16 + 16; len(ct) != want {
			return fmt.Errorf("message of %d bytes encrypted to %d bytes, not %d", len(msg), len(ct), want)
		}
		cts = append(cts, ct)
	}
	kept := map[int][][]byte{} // results, looked at once more in the end
	given := make([][]byte, len(cts))
	for i := range cts {
		given[i] = dup(cts[i])
	}
	reader := cipherOf(pa, b, nil, c.How)
	for k, i := range permutation(len(cts), c.Order) {
		msg := c.Msgs[i].Bytes()
		var dec xc.BlockCipher
		var who string
		way := (c.How + k) % 4
		if c.How >= 60 && way > 0 { // one object for many messages
			way = 4
		}
		switch way {
		case 0: // the same object, where it holds the private key of the recipient
			dec, who = enc, "the encrypting cipher"
			if c.How%3 == 0 {
				dec = cipherOf(a, b, nil, c.How+1)
			}
		case 1:
			dec, who = cipherOf(pa, b, nil, c.How+k), "the recipient with the public key of the sender"
		case 4:
			dec, who = reader, "one cipher of the recipient"
		case 2:
			dec, who = cipherOf(pb, a, nil, c.How+k), "the sender with the roles swapped"
		case 3:
			dec, who = cipherOf(a, b, nil, c.How+k), "a fresh cipher"
		}
		rec.Class("read by %s", who)
		for rep := 0; rep <= k%2; rep++ {
			got, err := dec.Decrypt(given[i])
			if err != nil {
				return fmt.Errorf("%s fails on message %d of %d bytes: %v", who, i, len(msg), err)
			}
			if err := same(fmt.Sprintf("message %d of %d bytes read by %s", i, len(msg), who), got, msg); err != nil {
				return err
			}
			kept[i] = append(kept[i], got)
		}
	}
	for i, l := range kept {
		for _, got := range l {
			if err := same(fmt.Sprintf("message %d, looked at again in the end", i), got, c.Msgs[i].Bytes()); err != nil {
				return err
			}
		}
		if err := same(fmt.Sprintf("ciphertext %d in the end", i), given[i], cts[i]); err != nil {
			return err
		}
	}
	return nil
}

// ---------- E02 ----------

type fmtCase struct {
	A, B Hex
	Msg  Blob
	Src  Source
	How  int
}

func genFmt(max int) func(t *rapid.T) fmtCase {
	return func(t *rapid.T) fmtCase {
		c := fmtCase{genPrivAny(t), genPrivAny(t), genBlobUp(t, max), genSource(t), rapid.IntRange(0, 119).Draw(t, "how")}
		if rapid.IntRange(0, 3).Draw(t, "fixed") == 0 { // salt and iv with structure
			c.Src.Fixed = append(genBytes32(t), genBytes32(t)[:16]...)
			if rapid.Bool().Draw(t, "stream") {
				c.Src.Fixed = genStream(t, 48)
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "self") == 0 { // a note to oneself
			c.B = c.A
		}
		if a, b := rarePair(t); a != nil {
			c.A, c.B = a, b
		}
		if rapid.IntRange(0, 11).Draw(t, "like the point") == 0 {
			c.Src.Fixed = append(saltLike(t, c.A, c.B), genBytes32(t)[:16]...)
		}
		return c
	}
}

// rarePair gives two keys whose shared point has a pattern, or nothing.
func rarePair(t *rapid.T) (a, b Hex) {
	e := rareOr(t, "shared", 6)
	if e == nil {
		return nil, nil
	}
	if a, b = dup(e.A), dup(e.B); rapid.Bool().Draw(t, "swap") {
		a, b = b, a
	}
	return
}

// saltLike is a salt that gives a chosen value together with the shared point.
func saltLike(t *rapid.T, a, b Hex) Hex {
	salt := genBytes32(t)
	for i, x := range ed.ScalarMultBits(ref.Clamp(a), ref.Decode(ref.Pub(b))).Bytes() {
		salt[i] ^= x
	}
	return salt
}

// encryptWith encrypts with the given source, given to the cipher or as the system source.
func encryptWith(s, r *xc.KeyPair, src *srcReader, how int, msg []byte) (ct []byte, err error) {
	if how%2 == 0 {
		return cipherOf(s, r, src, how).Encrypt(msg)
	}
	withRand(src, func() { ct, err = cipherOf(s, r, nil, how/2).Encrypt(msg) })
	return
}

func checkE02enc(c fmtCase, rec *Rec) error {
	msg := c.Msg.Bytes()
	rec.Class("%s", lenClass(len(msg)))
	rec.Class("pad %d", 16-len(msg)%16)
	rec.NT()
	a := owner(c.A, c.How)
	b := holder(ref.Pub(c.B), c.How/7)
	src := c.Src.reader()
	ct, err := encryptWith(a, b, src, c.How, dup(msg))
	if err != nil {
		return err
	}
	r := src.at(0, 48)
	want, err := ref.Encrypt(c.A, ref.Pub(c.B), r[:32], r[32:], msg)
	if err != nil {
		panic(harnessError("reference refuses an honest key"))
	}
	if len(ct) != len(want) {
		return fmt.Errorf("ciphertext of %d bytes instead of %d", len(ct), len(want))
	}
	return first(same("salt", ct[:32], want[:32]), same("iv", ct[32:48], want[32:48]), same("body", ct[48:], want[48:]))
}

type foreignCase struct {
	A, B     Hex
	Salt, IV Hex
	Msg      Blob
	How      int
}

func genForeign(t *rapid.T) foreignCase {
	c := foreignCase{genPrivAny(t), genPrivAny(t), genBytes32(t), genBytes32(t)[:16], genBlobUp(t, 3000), rapid.IntRange(0, 59).Draw(t, "how")}
	if rapid.IntRange(0, 9).Draw(t, "self") == 0 { // a note to oneself
		c.B = c.A
	}
	if a, b := rarePair(t); a != nil {
		c.A, c.B = a, b
	}
	if rapid.IntRange(0, 11).Draw(t, "like the point") == 0 {
		c.Salt = saltLike(t, c.A, c.B)
	}
	return c
}

func checkE02dec(c foreignCase, rec *Rec) error {
	msg := c.Msg.Bytes()
	rec.Class("%s", lenClass(len(msg)))
	rec.Class("pad %d", 16-len(msg)%16)
	rec.NT()
	ct, err := ref.Encrypt(c.A, ref.Pub(c.B), c.Salt, c.IV, msg)
	if err != nil {
		panic(harnessError("reference refuses an honest key"))
	}
	got, err := cipherOf(holder(ref.Pub(c.A), c.How), owner(c.B, c.How), nil, c.How/3).Decrypt(ct)
	if err != nil {
		return fmt.Errorf("ciphertext built elsewhere refused: %v", err)
	}
	return same("plaintext", got, msg)
}

// ---------- E03 ----------

type rawDecCase struct {
	Pub  Hex // sender
	Priv Hex // recipient
	In   Blob
	How  int
}

func genRawDec(t *rapid.T) rawDecCase {
	c := rawDecCase{Pub: genPubBytes(t), Priv: genPriv(t), How: rapid.IntRange(0, 59).Draw(t, "how")}
	switch rapid.IntRange(0, 3).Draw(t, "lk") {
	case 0:
		c.In = genBlobUp(t, 600)
	case 1:
		c.In = genBlobN(t, rapid.IntRange(0, 70).Draw(t, "len"))
	case 2:
		c.In = genBlobN(t, 64+rapid.IntRange(0, 40).Draw(t, "len"))
	default:
		c.In = genBlobN(t, 64+16*rapid.IntRange(0, 20).Draw(t, "blocks"))
	}
	return c
}

// decryptAs runs Decrypt and compares with the reference.
func decryptAs(pub, priv, in []byte, how int, rec *Rec) error {
	return decryptAfter(nil, pub, priv, in, how, rec)
}

// decryptAfter decrypts something valid with the same cipher before and
// afterwards: prime, or for half of the cases a message with the same salt.
func decryptAfter(prime, pub, priv, in []byte, how int, rec *Rec) (e error) {
	want, werr := ref.Decrypt(priv, pub, in)
	bc := cipherOf(holder(pub, how), owner(priv, how), nil, how/3)
	if prime == nil && how/15%2 == 1 && len(in) >= 32 {
		if key, err := ref.SharedKey(priv, pub, in[:32]); err == nil {
			iv := expand(uint64(len(in)), 16)
			prime = append(append(dup(in[:32]), iv...), ref.CBCEncrypt(key, iv, ref.Pad(iv[:how%16]))...)
		}
	}
	if prime != nil {
		rec.Class("the cipher is in use")
		first, err := ref.Decrypt(priv, pub, prime)
		if err != nil {
			panic(harnessError("prime"))
		}
		use := func(when string) error {
			got, err := bc.Decrypt(dup(prime))
			if err != nil || !bytes.Equal(got, first) {
				return fmt.Errorf("a valid ciphertext %s: got %x want %x (error %v)", when, clipB(got), clipB(first), err)
			}
			return nil
		}
		if err := use("before"); err != nil {
			return err
		}
		defer func() {
			if e == nil {
				e = use("afterwards")
			}
		}()
	}
	got, err := bc.Decrypt(dup(in))
	if werr != nil {
		rec.Class("refused")
		if err == nil || got != nil {
			return fmt.Errorf("input of %d bytes gives %d bytes and error %v, it has to be refused", len(in), len(got), err)
		}
		return nil
	}
	rec.Class("accepted")
	if err != nil {
		return fmt.Errorf("input of %d bytes refused: %v", len(in), err)
	}
	return same("plaintext", got, want)
}

func checkE03raw(c rawDecCase, rec *Rec) error {
	in := c.In.Bytes()
	if len(in) >= 64 {
		rec.NT()
		rec.Class("sender %s", pubClass(c.Pub))
		rec.Class("whole blocks %v", len(in)%16 == 0)
	} else {
		rec.Class("short")
	}
	return decryptAs(c.Pub, c.Priv, in, c.How, rec)
}

// padded plaintext of a chosen form, correctly encrypted
type padCase struct {
	Priv  Hex // recipient
	Pub   Hex // sender
	Salt  Hex
	IV    Hex
	Body  Blob // padded plaintext, whole blocks
	Tail  Hex  // overwrites its end
	Junk  Hex  // appended to the ciphertext, or cut off it
	Cut   int
	Shape string
	How   int
}

func genPad(t *rapid.T) padCase {
	c := padCase{Priv: genPriv(t), Salt: genBytes32(t), IV: genBytes32(t)[:16], How: rapid.IntRange(0, 59).Draw(t, "how")}
	if rapid.IntRange(0, 3).Draw(t, "hostile") == 0 {
		c.Pub = genPubBytes(t)
	} else {
		c.Pub = ref.Pub(genPriv(t))
	}
	c.Body = genBlobN(t, 16*rapid.IntRange(1, 4).Draw(t, "blocks"))
	if rapid.IntRange(0, 39).Draw(t, "up") == 39 {
		c.Body = genBlobN(t, max(genLong(t, 100, 70000)&^15, 16))
	}
	n := rapid.IntRange(1, 16).Draw(t, "pad")
	tail := bytes.Repeat([]byte{byte(n)}, n)
	switch rapid.IntRange(0, 7).Draw(t, "shape") {
	case 0:
		c.Shape = "valid"
	case 1:
		c.Shape = "pad byte too large or zero"
		v := rapid.SampledFrom([]int{0, 17, 18, 31, 32, 33, 48, 64, 127, 128, 129, 200, 240, 254, 255}).Draw(t, "v")
		if rapid.Bool().Draw(t, "any") {
			v = rapid.IntRange(17, 256).Draw(t, "v") & 0xff
		}
		k := v
		if k > c.Body.Len || k == 0 || rapid.Bool().Draw(t, "short") {
			k = rapid.IntRange(1, 16).Draw(t, "k")
		}
		tail = bytes.Repeat([]byte{byte(v)}, k)
	case 2, 3:
		c.Shape = "one pad byte wrong"
		if n > 1 {
			i := rapid.IntRange(0, n-2).Draw(t, "i")
			if rapid.Bool().Draw(t, "end") { // the ends of the padding matter most
				i = rapid.SampledFrom([]int{0, n - 2}).Draw(t, "i")
			}
			tail[i] = rapid.SampledFrom([]byte{byte(n - 1), byte(n + 1), 0, byte(n) ^ 0x10, byte(n) | 0x80, 0xff}).Draw(t, "v")
		}
	case 4:
		c.Shape = "byte before the padding equals it"
		tail = bytes.Repeat([]byte{byte(n)}, n+1)
	case 5:
		c.Shape = "random tail"
		tail = expand(rapid.Uint64().Draw(t, "seed"), n)
	case 6:
		c.Shape = "nested valid padding"
		tail = append(bytes.Repeat([]byte{byte(n)}, n), 1)
	case 7:
		c.Shape = "valid, then cut or extended"
		if rapid.Bool().Draw(t, "cut") {
			c.Cut = rapid.IntRange(1, c.Body.Len).Draw(t, "n")
		} else {
			c.Junk = expand(rapid.Uint64().Draw(t, "seed"), rapid.IntRange(1, 33).Draw(t, "n"))
		}
	}
	c.Tail = tail
	return c
}

func checkE03pad(c padCase, rec *Rec) error {
	body := c.Body.Bytes()
	tail := c.Tail
	if len(tail) > len(body) {
		tail = tail[len(tail)-len(body):]
	}
	copy(body[len(body)-len(tail):], tail)
	rec.Class("shape: %s", c.Shape)
	rec.NT()
	in := append(append([]byte{}, c.Salt...), c.IV...)
	if key, err := ref.SharedKey(c.Priv, c.Pub, c.Salt); err == nil {
		in = append(in, ref.CBCEncrypt(key, c.IV, body)...)
	} else {
		rec.Class("sender key undecodable")
		in = append(in, body...)
	}
	in = append(in[:len(in)-c.Cut:len(in)-c.Cut], c.Junk...)
	return decryptAs(c.Pub, c.Priv, in, c.How, rec)
}

// every length with an honest sender
type lenCase struct {
	A, B Hex
	N    int
	Kind int
}

func checkE03len(c lenCase, rec *Rec) error {
	in := expand(uint64(c.N)+1, c.N)
	if c.Kind == 1 && c.N >= 64 { // a valid ciphertext with more or less at its end
		ct, _ := ref.Encrypt(c.A, ref.Pub(c.B), in[:32], in[32:48], in[48:])
		in = append(ct, ct...)[:c.N]
	}
	if c.N >= 64 {
		rec.NT()
	}
	return decryptAs(ref.Pub(c.A), c.B, in, c.N, rec)
}

// a valid ciphertext in another shape
type shapeDecCase struct {
	A, B, Salt, IV Hex
	Msg            Blob
	Form           []Form
	How            int
}

func checkE03shape(c shapeDecCase, rec *Rec) error {
	ct, err := ref.Encrypt(c.A, ref.Pub(c.B), c.Salt, c.IV, c.Msg.Bytes())
	if err != nil {
		panic(harnessError("shape"))
	}
	in := reshape(ct, c.Form)
	rec.NT()
	rec.Class("last change: %s", c.Form[len(c.Form)-1].Op)
	rec.Class("whole blocks %v", len(in) >= 64 && len(in)%16 == 0)
	return decryptAs(ref.Pub(c.A), c.B, in, c.How, rec)
}

// ---------- E04 ----------

type sharedCase struct {
	A, B Hex
	Salt Hex
	Bit  int
	Eng  int
}

func sharedKey(priv, pub, salt []byte, eng int) ([]byte, error) {
	// the pairs of the cipher play no part in the keys given
	p := mustPair(make([]byte, 32), nil, eng)
	return xc.NewEd25519BlockCipher(p, mustPair(nil, expand(uint64(eng), 32), 0), nil).GetSharedKey(xc.NewPrivateKey(dup(priv)), xc.NewPublicKey(dup(pub)), dup(salt))
}

func checkE04(c sharedCase, rec *Rec) error {
	rec.NT()
	if bytes.Equal(c.A, c.B) {
		rec.Class("same key twice")
	}
	pa, pb := ref.Pub(c.A), ref.Pub(c.B)
	want, err := ref.SharedKey(c.A, pb, c.Salt)
	if err != nil {
		panic(harnessError("reference refuses an honest key"))
	}
	k1, err := sharedKey(c.A, pb, c.Salt, c.Eng)
	if err != nil {
		return err
	}
	k2, err := sharedKey(c.B, pa, c.Salt, c.Eng)
	if err != nil {
		return err
	}
	salt := dup(c.Salt)
	salt[c.Bit/8%32] ^= 1 << (c.Bit % 8)
	k3, err := sharedKey(c.A, pb, salt, c.Eng)
	if err != nil {
		return err
	}
	if bytes.Equal(k1, k3) {
		return fmt.Errorf("the shared key does not depend on bit %d of the salt", c.Bit)
	}
	w3, _ := ref.SharedKey(c.A, pb, salt)
	return first(same("shared key of the first party", k1, want), same("shared key of the second party", k2, want), same("shared key under another salt", k3, w3))
}

// several parties and salts on one cipher object, with messages in between
type sharedSeqCase struct {
	Own, Other Hex // the pairs of the cipher
	Keys       []Hex
	Pubs       []Hex
	Salts      []Hex
	Calls      []int
	Eng        int
}

func genSharedSeq(t *rapid.T) sharedSeqCase {
	c := sharedSeqCase{Own: genPriv(t), Other: genPriv(t), Eng: rapid.IntRange(0, 7).Draw(t, "eng")}
	for i := 0; i < 2; i++ {
		c.Keys, c.Pubs = append(c.Keys, genPriv(t)), append(c.Pubs, genPt(t).Point().Bytes())
	}
	c.Keys = append(c.Keys, vary(t, c.Keys[0]), c.Own)
	c.Pubs = append(c.Pubs, ref.Pub(c.Keys[0]), ref.Pub(c.Other), genPubBytes(t))
	s := genBytes32(t)
	c.Salts = []Hex{s, vary(t, s)}
	c.Calls = rapid.SliceOfN(rapid.IntRange(0, 79), 2, 8).Draw(t, "calls")
	return c
}

func checkE04seq(c sharedSeqCase, rec *Rec) error {
	rec.NT()
	own, other := mustPair(c.Own, nil, c.Eng), mustPair(c.Other, nil, c.Eng/2)
	bc := xc.NewEd25519BlockCipher(own, other, nil)
	var privs []*xc.PrivateKey
	var pubs []*xc.PublicKey
	for _, k := range c.Keys {
		privs = append(privs, xc.NewPrivateKey(dup(k)))
	}
	privs[3] = own.PrivateKey
	for _, k := range c.Pubs {
		pubs = append(pubs, xc.NewPublicKey(dup(k)))
	}
	pubs[3] = other.PublicKey
	for i, n := range c.Calls {
		k, p, s := n%4, n/4%5, c.Salts[n/20%2]
		if n >= 40 && n%4 == 3 { // the pairs of the cipher are used as well
			rec.Class("with messages in between")
			ct, err := bc.Encrypt([]byte{byte(n)})
			if err != nil {
				return fmt.Errorf("call %d: encrypting: %v", i, err)
			}
			want, err := ref.Encrypt(c.Own, ref.Pub(c.Other), ct[:32], ct[32:48], []byte{byte(n)})
			must(err)
			if err := spent(fmt.Sprintf("call %d: ciphertext", i), ct, want); err != nil {
				return err
			}
		}
		got, err := bc.GetSharedKey(privs[k], pubs[p], dup(s))
		want, werr := ref.SharedKey(c.Keys[k], c.Pubs[p], s)
		if werr != nil {
			if err == nil || got != nil {
				return fmt.Errorf("call %d: shared key %x, error %v with a public key that is no point", i, got, err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("call %d: public key %x refused: %v", i, []byte(c.Pubs[p]), err)
		}
		if err := spent(fmt.Sprintf("call %d: shared key", i), got, want); err != nil {
			return err
		}
	}
	return nil
}

type hostilePubCase struct {
	A    Hex
	Pub  Hex
	Salt Hex
}

func checkE04hostile(c hostilePubCase, rec *Rec) error {
	rec.Class("%s", pubClass(c.Pub))
	rec.NT()
	want, werr := ref.SharedKey(c.A, c.Pub, c.Salt)
	got, err := sharedKey(c.A, c.Pub, c.Salt, 0)
	if werr != nil {
		if err == nil || got != nil {
			return fmt.Errorf("shared key %x, error %v with a public key that is no point", got, err)
		}
		if len(c.Pub) == 32 { // encrypting to it and decrypting from it fail too
			a, h := mustPair(c.A, nil, 0), mustPair(nil, c.Pub, 0)
			if ct, err := cipherOf(a, h, nil, int(c.Salt[0])).Encrypt([]byte("x")); err == nil || ct != nil {
				return fmt.Errorf("encrypted to a public key that is no point: %x %v", ct, err)
			}
			if pt, err := cipherOf(h, a, nil, int(c.Salt[1])).Decrypt(make([]byte, 80)); err == nil || pt != nil {
				return fmt.Errorf("decrypted from a public key that is no point: %x %v", pt, err)
			}
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("public key %x refused: %v", c.Pub, err)
	}
	return same("shared key", got, want)
}

// ---------- E05 ----------

type freshCase struct {
	A, B Hex
	Src  Source
	Msgs []Blob
	Ways []int
	How  int
}

func genFresh(t *rapid.T) freshCase {
	c := freshCase{A: genPriv(t), B: genPriv(t), Src: genFailingSource(t, 200), How: rapid.IntRange(0, 59).Draw(t, "how")}
	if rapid.IntRange(0, 2).Draw(t, "endless") == 0 {
		c.Src.End = -1
	}
	// an error that comes with the last bytes may be swallowed between salt and iv, so such a source stays broken
	c.Src.Heal = rapid.IntRange(0, 3).Draw(t, "heal") > 0 && c.Src.Mode != "errwith"
	if rapid.IntRange(0, 2).Draw(t, "fixed") == 0 {
		c.Src.Fixed = genStream(t, 16*rapid.IntRange(1, 12).Draw(t, "nfixed"))
	}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	one := rapid.Bool().Draw(t, "one")
	for i := 0; i < n; i++ {
		if one && i > 0 {
			c.Msgs = append(c.Msgs, c.Msgs[0])
		} else {
			c.Msgs = append(c.Msgs, genBlobUp(t, 100))
		}
		c.Ways = append(c.Ways, rapid.IntRange(0, 3).Draw(t, "way"))
	}
	return c
}

func checkE05(c freshCase, rec *Rec) error {
	src := c.Src.reader()
	a, b := owner(c.A, c.How), holder(ref.Pub(c.B), 0)
	own := cipherOf(a, b, src, 0)
	var sys xc.BlockCipher
	withRand(src, func() { sys = cipherOf(a, b, nil, c.How) })
	if len(c.Src.Chunks) > 0 || c.Src.End >= 0 || len(c.Msgs) > 1 {
		rec.NT()
	}
	var all [][]byte
	for i, m := range c.Msgs {
		msg := m.Bytes()
		pos := src.pos
		ok := c.Src.End < 0 || pos+48 <= c.Src.End || (c.Src.Heal && src.failed)
		var ct []byte
		var err error
		switch c.Ways[i] {
		case 0, 1:
			ct, err = own.Encrypt(dup(msg))
		case 2: // system source, cipher made earlier
			withRand(src, func() { ct, err = sys.Encrypt(dup(msg)) })
		case 3:
			withRand(src, func() { ct, err = cipherOf(a, b, nil, c.How+i).Encrypt(dup(msg)) })
		}
		if !ok {
			rec.Class("source fails")
			if err == nil || ct != nil {
				return fmt.Errorf("encryption %d gives %d bytes, error %v although the source ends after %d of 48 bytes", i, len(ct), err, c.Src.End-pos)
			}
			if !src.failed {
				return fmt.Errorf("encryption %d failed before the source did: %v", i, err)
			}
			continue
		}
		if src.failed {
			rec.Class("source delivers again")
		} else {
			rec.Class("source delivers")
		}
		if err != nil {
			return fmt.Errorf("encryption %d: %v", i, err)
		}
		if src.pos != pos+48 {
			return fmt.Errorf("encryption %d took %d bytes", i, src.pos-pos)
		}
		if len(ct) < 64 {
			return fmt.Errorf("encryption %d gives %d bytes", i, len(ct))
		}
		r := src.at(pos, 48)
		want, _ := ref.Encrypt(c.A, ref.Pub(c.B), r[:32], r[32:], msg)
		if err := same(fmt.Sprintf("ciphertext %d", i), ct, want); err != nil {
			return err
		}
		all = append(all, ct)
	}
	if c.Src.Fixed != nil {
		return nil // the source itself repeats
	}
	return distinct(all)
}

func distinct(all [][]byte) error {
	seen := map[string]int{}
	for i, ct := range all {
		for _, k := range []string{"salt" + string(ct[:32]), "iv" + string(ct[32:48])} {
			if j, ok := seen[k]; ok {
				return fmt.Errorf("ciphertexts %d and %d share salt or iv", j, i)
			}
			seen[k] = i
		}
	}
	return nil
}

// with the real system source
type sysCase struct {
	A, B Hex
	Msg  Blob
	N    int
	How  int
}

func checkE05sys(c sysCase, rec *Rec) error {
	rec.NT()
	a, b := mustPair(c.A, nil, 0), mustPair(c.B, nil, 0)
	one := cipherOf(a, b, nil, c.How)
	var all [][]byte
	for i := 0; i < c.N; i++ {
		bc := one
		if (c.How>>i)&1 == 1 {
			bc = cipherOf(a, b, nil, c.How+i)
		}
		ct, err := bc.Encrypt(c.Msg.Bytes())
		if err != nil {
			return err
		}
		all = append(all, ct)
	}
	return distinct(all)
}

// ---------- E06 ----------

type wrongCase struct {
	A, B, Other Hex
	Msg         Blob
	What        string
	Bits        []int
	Seed        uint64
	How         int
}

var wrongKinds = []string{"recipient key", "sender key", "salt bit", "salt", "iv", "body", "cut", "extend", "extend", "prepend", "insert", "drop blocks", "swap blocks", "repeat block"}

func genWrong(t *rapid.T) wrongCase {
	c := wrongCase{A: genPriv(t), B: genPriv(t), Other: genPriv(t), Msg: genBlobUp(t, 200), What: rapid.SampledFrom(wrongKinds).Draw(t, "what"),
		Seed: rapid.Uint64().Draw(t, "seed"), How: rapid.IntRange(0, 59).Draw(t, "how")}
	k := rapid.IntRange(1, 3).Draw(t, "nbits")
	for i := 0; i < k; i++ {
		c.Bits = append(c.Bits, rapid.IntRange(0, 1<<16).Draw(t, "bit"))
	}
	if rapid.IntRange(0, 2).Draw(t, "near") == 0 { // a key that differs in one bit
		if c.What == "sender key" {
			c.Other = dup(c.A)
		} else {
			c.Other = dup(c.B)
		}
		c.Other[c.Bits[0]/8%32] ^= 1 << (c.Bits[0] % 8)
	}
	return c
}

// filling gives the bytes that are put before, into or behind a ciphertext.
func (c wrongCase) filling(ct []byte) []byte {
	n := 1 + c.Bits[0]%40
	switch c.Bits[0] / 40 % 4 {
	case 1:
		n = 16 * (1 + c.Bits[0]/160%8)
	case 2:
		n = 1 << (c.Bits[0] / 160 % 13)
	}
	switch c.Seed % 5 {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{byte(c.Seed >> 8)}, n)
	case 2: // its own start again
		return append([]byte{}, ct[:min(n, len(ct))]...)
	case 3: // something that looks like padding
		return bytes.Repeat([]byte{byte(n)}, n)
	}
	return expand(c.Seed+1, n)
}

func checkE06(c wrongCase, rec *Rec) error {
	msg := c.Msg.Bytes()
	rec.Class("changed: %s", c.What)
	a, b := mustPair(c.A, nil, c.How), mustPair(c.B, nil, c.How)
	ct, err := encryptWith(a, b, Source{Seed: c.Seed, End: -1}.reader(), c.How, dup(msg))
	if err != nil {
		return err
	}
	orig := dup(ct)
	priv, pub := []byte(c.B), ref.Pub(c.A)
	flip := func(from, n int) {
		for _, bit := range c.Bits[:1+len(c.Bits)/3*2] {
			bit %= n * 8
			ct[from+bit/8] ^= 1 << (bit % 8)
		}
	}
	body := len(ct) - 48
	switch c.What {
	case "recipient key":
		priv = c.Other
	case "sender key":
		pub = ref.Pub(c.Other)
	case "salt bit":
		b := c.Bits[0] % 256
		ct[b/8] ^= 1 << (b % 8)
	case "salt":
		flip(0, 32)
	case "iv":
		flip(32, 16)
	case "body":
		flip(48, body)
	case "cut":
		ct = ct[:len(ct)-1-c.Bits[0]%body]
	case "extend":
		ct = append(ct, c.filling(ct)...)
	case "prepend":
		ct = append(c.filling(ct), ct...)
	case "insert":
		at := 48 + int(c.Seed>>32)%(body+1)
		if c.Seed>>20%2 == 0 {
			at &^= 15
		}
		ct = slices.Insert(ct, at, c.filling(ct)...)
	case "drop blocks":
		from := 48 + int(c.Seed>>32)%body&^15
		ct = slices.Delete(ct, from, min(from+16*(1+c.Bits[0]%3), len(ct)))
	case "swap blocks":
		if body >= 32 {
			i := 48 + 16*(c.Bits[0]%(body/16-1))
			t := dup(ct[i : i+16])
			copy(ct[i:], ct[i+16:i+32])
			copy(ct[i+16:], t)
		}
	case "repeat block":
		ct = append(ct, ct[len(ct)-16:]...)
	}
	if bytes.Equal(ct, orig) && bytes.Equal(priv, c.B) && bytes.Equal(pub, ref.Pub(c.A)) {
		rec.Class("nothing changed")
		return nil
	}
	rec.NT()
	var prime []byte
	if c.How/30 == 1 && bytes.Equal(priv, c.B) && bytes.Equal(pub, ref.Pub(c.A)) { // the cipher knows the original
		prime = orig
	}
	bc := cipherOf(holder(pub, c.How), owner(priv, c.How), nil, c.How/3)
	if prime != nil {
		if d, err := bc.Decrypt(dup(prime)); err != nil || !bytes.Equal(d, msg) {
			return fmt.Errorf("the unchanged ciphertext does not decrypt: %v", err)
		}
	}
	got, err := bc.Decrypt(dup(ct))
	if err == nil && bytes.Equal(got, msg) {
		return fmt.Errorf("the original message of %d bytes comes out after changing the %s", len(msg), c.What)
	}
	// and it gives what the format prescribes
	return decryptAfter(prime, pub, priv, ct, c.How, &Rec{classes: map[string]int{}})
}

func init() {
	zero := Hex(make([]byte, 32))
	register(&Prop{ID: "E01", Facets: []*Facet{
		afterFailures(60, 4000, "decrypt"),
		F("round-trip", "an empty or structured message, several messages, or one pair in both roles", 2400, 60000, genRT(4, 400, false), checkE01,
			rtCase{zero, zero, true, []Blob{{Len: 0}, {Len: 16}}, 1, 0}),
		F("long", "as above", 160, 4000, genRT(2, 300000, true), checkE01,
			rtCase{zero, zero, false, []Blob{{Len: 3<<20 + 5, Kind: "random", Seed: 6}, {Len: 1 << 20, Kind: "random", Seed: 7}}, 1, 0}),
		many(8, 200, 280, manyCiphers),
	}})
	register(&Prop{ID: "E02", Facets: []*Facet{
		refilled(800, 40000, false, "encrypt"),
		overlapping(1200, 60000, "encrypt"),
		F("exact-bytes", "every case", 5000, 120000, genFmt(2000), checkE02enc),
		F("foreign", "every case", 4000, 100000, genForeign, checkE02dec),
		many(8, 200, 400, manyCiphers),
	}})
	var lens []lenCase
	for n := 0; n <= 200; n++ {
		lens = append(lens, lenCase{zero, expand(4, 32), n, 1}, lenCase{expand(5, 32), expand(6, 32), n, 0})
	}
	register(&Prop{ID: "E03", Facets: []*Facet{
		afterFailures(60, 4000, "decrypt", "bad-senders"),
		refilled(800, 40000, false, "decrypt"),
		overlapping(1200, 60000, "decrypt"),
		F("arbitrary", "at least 64 bytes", 4000, 120000, genRawDec, checkE03raw),
		F("paddings", "every case", 6000, 150000, genPad, checkE03pad),
		F("lengths", "at least 64 bytes", 400, 10000, func(t *rapid.T) lenCase {
			return lenCase{genPriv(t), genPriv(t), rapid.IntRange(0, 900).Draw(t, "n"), rapid.IntRange(0, 1).Draw(t, "kind")}
		}, checkE03len, lens...),
		F("reshaped", "every case", 10000, 200000, func(t *rapid.T) shapeDecCase {
			return shapeDecCase{genPriv(t), genPriv(t), genBytes32(t), genBytes32(t)[:16], genBlob(t, 100), genForms(t), rapid.IntRange(0, 59).Draw(t, "how")}
		}, checkE03shape),
		many(8, 200, 300, manyCiphers),
	}})
	register(&Prop{ID: "E04", Facets: []*Facet{
		afterFailures(60, 4000, "shared"),
		refilled(800, 40000, false, "shared"),
		overlapping(1200, 60000, "shared"),
		F("both-parties", "every case", 3000, 80000, func(t *rapid.T) sharedCase {
			c := sharedCase{genPriv(t), genPriv(t), genBytes32(t), rapid.IntRange(0, 255).Draw(t, "bit"), rapid.IntRange(0, 2).Draw(t, "eng")}
			if rapid.IntRange(0, 9).Draw(t, "same") == 0 {
				c.B = c.A
			}
			if a, b := rarePair(t); a != nil {
				c.A, c.B = a, b
			}
			if rapid.IntRange(0, 11).Draw(t, "like the point") == 0 {
				c.Salt = saltLike(t, c.A, c.B)
			}
			return c
		}, checkE04),
		F("sequences", "every case: two to eight calls on one cipher, with different keys and salts and messages in between", 3000, 80000, genSharedSeq, checkE04seq),
		many(8, 200, 400, manyShared),
		F("any-public-key", "every case", 6000, 150000, func(t *rapid.T) hostilePubCase {
			c := hostilePubCase{genPriv(t), genPubBytes(t), genBytes32(t)}
			if rapid.IntRange(0, 5).Draw(t, "resize") == 0 {
				c.Pub = append(c.Pub, expand(3, 64)...)[:rapid.IntRange(0, 96).Draw(t, "n")]
			}
			return c
		}, checkE04hostile),
	}})
	register(&Prop{ID: "E05", Facets: []*Facet{
		afterFailures(60, 4000, "encrypt"),
		F("standard-sources", "every case: sources of the types of the standard library", 6000, 150000, genStd(48, true), checkE05std),
		F("source", "the source splits its reads or ends, or several encryptions", 3500, 90000, genFresh, checkE05),
		F("system-source", "every case", 700, 15000, func(t *rapid.T) sysCase {
			n := rapid.IntRange(2, 5).Draw(t, "n")
			if rapid.IntRange(0, 39).Draw(t, "many") == 0 {
				n = rapid.IntRange(6, 150).Draw(t, "n")
			}
			return sysCase{genPriv(t), genPriv(t), genBlob(t, 40), n, rapid.IntRange(0, 255).Draw(t, "how")}
		}, checkE05sys, sysCase{bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), Blob{}, 600, 0}, sysCase{bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{1}, 32), Blob{Len: 20}, 1100, 0}),
	}, Assumptions: []string{"crypto/rand.Reader stands for the system randomness source and is replaced during a case, except in facet system-source"}})
	register(&Prop{ID: "E06", Facets: []*Facet{
		F("changed", "the ciphertext or a key really changed", 4000, 100000, genWrong, checkE06),
	}, Assumptions: []string{"no collision of SHA3-256 and no chance decryption of a full block under another key occurs"}})
}

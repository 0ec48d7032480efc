package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/big"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

func unbound() []string {
	var u []string
	v := &xc.VX
	for n, missing := range map[string]bool{
		"FAdd": v.FAdd == nil, "FSub": v.FSub == nil, "FNeg": v.FNeg == nil, "FMul": v.FMul == nil, "FSq": v.FSq == nil,
		"FSqDbl": v.FSqDbl == nil, "FInv": v.FInv == nil, "ModQ": v.ModQ == nil, "MulAddQ": v.MulAddQ == nil,
		"GAdd": v.GAdd == nil, "GSub": v.GSub == nil, "GDbl": v.GDbl == nil, "GNeg": v.GNeg == nil, "GToCached": v.GToCached == nil,
		"GToP2": v.GToP2 == nil, "GToP3": v.GToP3 == nil, "GPreAdd": v.GPreAdd == nil, "GPreSub": v.GPreSub == nil,
		"GMul": v.GMul == nil, "GDoubleMul": v.GDoubleMul == nil,
		"UMulAdd": v.UMulAdd == nil, "UDoubleMul": v.UDoubleMul == nil,
	} {
		if missing {
			u = append(u, n)
		}
	}
	return u
}

// ---------- shared constructors ----------

func engineOf(i int) xc.CryptoEngine {
	switch i % 3 {
	case 1:
		return xc.CryptoEngines.DefaultEngine
	case 2:
		return xc.CryptoEngines.Ed25519Engine
	}
	return nil
}

func mustPair(priv, pub []byte, eng int) *xc.KeyPair {
	var sk *xc.PrivateKey
	var pk *xc.PublicKey
	if priv != nil {
		sk = xc.NewPrivateKey(dup(priv))
	}
	if pub != nil {
		pk = xc.NewPublicKey(dup(pub))
	}
	if eng%4 == 1 { // keys a caller made without the constructors
		if sk != nil {
			sk = &xc.PrivateKey{Raw: dup(priv)}
		}
		if pk != nil {
			pk = &xc.PublicKey{Raw: dup(pub)}
		}
		if sk != nil && pk != nil {
			return &xc.KeyPair{PrivateKey: sk, PublicKey: pk}
		}
	}
	kp, err := xc.NewKeyPair(sk, pk, engineOf(eng))
	if err != nil {
		panic(fmt.Sprintf("NewKeyPair refused %x/%x: %v", priv, pub, err))
	}
	return kp
}

// other decides by the bytes whether a pair is completed with a key that does
// not belong to them, and gives the private one.
func other(b []byte, how int) []byte {
	h := fnv.New64a()
	h.Write(b)
	h.Write([]byte{byte(how), byte(how >> 8)})
	v := h.Sum64()
	if v>>20%3 != 0 {
		return nil
	}
	return expand(v, 32)
}

// holder is a pair that is needed for its public key only. Some hold a private
// key that has nothing to do with it.
func holder(pub []byte, how int) *xc.KeyPair { return mustPair(other(pub, how), pub, how) }

// owner is a pair that is needed for its private key only. Some hold a public
// key that has nothing to do with it.
func owner(priv []byte, how int) *xc.KeyPair {
	if o := other(priv, how); o != nil {
		return mustPair(priv, ref.Pub(o), how)
	}
	return mustPair(priv, nil, how)
}

type dsa interface {
	Sign([]byte) (*xc.Signature, error)
	Verify([]byte, *xc.Signature) bool
	IsCanonicalSignature(*xc.Signature) bool
	MakeSignatureCanonical(*xc.Signature) (*xc.Signature, error)
}

// signerOf builds one of the ways to get at a signer for a key pair.
func signerOf(kp *xc.KeyPair, how int) dsa {
	switch how % 5 {
	case 0:
		return xc.NewSignerFromKeyPair(kp, nil)
	case 1:
		return xc.NewSignerFromKeyPair(kp, xc.CryptoEngines.DefaultEngine)
	case 2:
		return xc.NewSignerFromKeyPair(kp, xc.CryptoEngines.Ed25519Engine)
	case 3:
		return xc.NewEd25519DsaSigner(kp)
	}
	return xc.NewSigner(xc.CryptoEngines.Ed25519Engine.CreateDsaSigner(kp))
}

func sigOf(r, s []byte) *xc.Signature { return &xc.Signature{R: dup(r), S: dup(s)} }

// withRand runs f with crypto/rand.Reader replaced.
func withRand(r interface{ Read([]byte) (int, error) }, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

// ---------- S01 ----------

type signCase struct {
	Priv Hex
	Msg  Blob
	How  int // engine of the pair and kind of the signer
}

func genSignCase(maxLen int) func(t *rapid.T) signCase {
	return func(t *rapid.T) signCase {
		c := signCase{genPrivAny(t), genBlob(t, maxLen), rapid.IntRange(0, 14).Draw(t, "how")}
		if e := rareOr(t, "signature", 6); e != nil {
			c.Priv, c.Msg = dup(e.A), literal(e.B)
		}
		return c
	}
}

func privClass(priv []byte, rec *Rec) {
	if len(priv) != 32 {
		rec.Class("private key of another length")
	}
}

func checkS01(c signCase, rec *Rec) error {
	msg := c.Msg.Bytes()
	rec.Class("%s", lenClass(len(msg)))
	if len(msg) > 0 && c.Msg.Kind != "zero" {
		rec.NT()
	}
	privClass(c.Priv, rec)
	kp := mustPair(c.Priv, nil, c.How/5)
	signer := signerOf(kp, c.How)
	sig, err := signer.Sign(dup(msg))
	if err != nil {
		return fmt.Errorf("Sign failed: %v", err)
	}
	if sig == nil {
		return fmt.Errorf("Sign returned no signature and no error")
	}
	pubOnly := mustPair(nil, kp.PublicKey.Raw, (c.How+1)%3)
	if !signerOf(kp, c.How+1).Verify(dup(msg), sig) {
		return fmt.Errorf("full key pair rejects its own signature %x", sig.Bytes())
	}
	if c.How%3 == 0 && !signer.Verify(dup(msg), sig) {
		return fmt.Errorf("the signer rejects its own signature %x", sig.Bytes())
	}
	if !signerOf(pubOnly, c.How+2).Verify(dup(msg), sig) {
		return fmt.Errorf("public key alone rejects the signature %x", sig.Bytes())
	}
	b := sig.Bytes()
	if len(b) != 64 {
		return fmt.Errorf("serialised to %d bytes", len(b))
	}
	sig2, err := xc.NewSignatureFromBytes(dup(b))
	if err != nil {
		return fmt.Errorf("parsing the serialised signature: %v", err)
	}
	if !signerOf(pubOnly, c.How+3).Verify(dup(msg), sig2) {
		return fmt.Errorf("rejected after serialise/parse: %x", b)
	}
	if !signerOf(kp, c.How+4).IsCanonicalSignature(sig2) {
		return fmt.Errorf("own signature is not canonical: %x", b)
	}
	return nil
}

// ---------- S02 ----------

type detCase struct {
	Priv  Hex
	Pub   Hex // nil: derived
	Msg   Blob
	Noise []signCase // signatures made in between
	How   int
	Rnd   int // 0 leave, 1 failing randomness, 2 other randomness
}

func genDet(maxLen, noise int) func(t *rapid.T) detCase {
	return func(t *rapid.T) detCase {
		c := detCase{Priv: genPrivAny(t), Msg: genBlob(t, maxLen), How: rapid.IntRange(0, 14).Draw(t, "how"), Rnd: rapid.IntRange(0, 2).Draw(t, "rnd")}
		if rapid.IntRange(0, 5).Draw(t, "otherpub") == 0 {
			c.Pub = ref.Pub(genPrivAny(t))
		}
		if e := rareOr(t, "signature", 6); e != nil {
			c.Priv, c.Msg, c.Pub = dup(e.A), literal(e.B), nil
		}
		if noise > 0 {
			n := rapid.IntRange(0, noise).Draw(t, "noise")
			for i := 0; i < n; i++ {
				c.Noise = append(c.Noise, signCase{genPrivAny(t), genBlobUp(t, 200), rapid.IntRange(0, 14).Draw(t, "how")})
			}
		}
		return c
	}
}

func checkS02(c detCase, rec *Rec) error {
	msg := c.Msg.Bytes()
	rec.Class("%s", lenClass(len(msg)))
	pub := []byte(c.Pub)
	if pub == nil {
		pub = ref.Pub(c.Priv)
	} else {
		rec.Class("explicit other public key")
	}
	privClass(c.Priv, rec)
	want := ref.Sign(c.Priv, pub, msg)
	kp := mustPair(c.Priv, c.Pub, c.How/5)
	s1 := signerOf(kp, c.How)
	var err error
	run := func() {
		for i := 0; i < 2; i++ {
			sig, e := s1.Sign(dup(msg))
			if e != nil {
				err = fmt.Errorf("Sign: %v", e)
				return
			}
			if err = same(fmt.Sprintf("signature %d", i), append(dup(sig.R), sig.S...), want); err != nil {
				return
			}
			if err = same("Bytes", sig.Bytes(), want); err != nil {
				return
			}
			for _, n := range c.Noise {
				nk := mustPair(n.Priv, nil, n.How/5)
				signerOf(nk, n.How).Sign(n.Msg.Bytes())
				s1.Sign(n.Msg.Bytes())
			}
			if len(c.Noise) == 0 {
				return
			}
		}
	}
	switch c.Rnd {
	case 1:
		withRand(Source{End: 0, Mode: "err"}.reader(), run)
	case 2:
		withRand(Source{Seed: 7, End: -1}.reader(), run)
	default:
		run()
	}
	if len(msg) > 0 || c.Pub != nil || len(c.Noise) > 0 {
		rec.NT()
	}
	if err != nil {
		return err
	}
	sig, e := signerOf(kp, c.How+1).Sign(dup(msg))
	if e != nil {
		return fmt.Errorf("Sign by another signer: %v", e)
	}
	return same("signature by another signer", sig.Bytes(), want)
}

// ---------- S03 ----------

// verCase starts from a valid signature and changes it.
type verCase struct {
	Priv Hex
	Msg  Blob
	Mut  string
	A, B int
	X    Hex
	How  int
}

var verMuts = []string{"none", "flip msg", "flip R", "flip S", "flip pub", "append msg", "cut msg", "set msg byte", "other msg",
	"other pub", "other R", "other S", "S+kL", "L-S", "swap", "neg R", "neg pub", "R byte", "S byte", "zero S", "R plus torsion", "pub plus torsion", "random sig"}

func genVer(t *rapid.T) verCase {
	c := verCase{Priv: genPriv(t), Msg: genBlobUp(t, 3000), Mut: rapid.SampledFrom(verMuts).Draw(t, "mut"),
		A: rapid.IntRange(0, 1<<16).Draw(t, "a"), B: rapid.IntRange(0, 255).Draw(t, "b"), How: rapid.IntRange(0, 24).Draw(t, "how")}
	if e := rareOr(t, "signature", 6); e != nil {
		c.Priv, c.Msg = dup(e.A), literal(e.B)
		if rapid.Bool().Draw(t, "valid") {
			c.Mut = "none"
		}
	}
	switch c.Mut {
	case "other pub":
		c.X = genPubBytes(t)
	case "other R":
		c.X = genPubBytes(t)
	case "other S":
		c.X = leB(genInt(t, 256), 32)
	case "other msg":
		c.X = genBytes32(t)
	case "random sig":
		c.X = append(genBytes32(t), leB(genInt(t, 253), 32)...)
	}
	return c
}

func (c verCase) build() (pub, msg, r, s []byte) {
	msg = c.Msg.Bytes()
	pub = ref.Pub(c.Priv)
	sig := ref.Sign(c.Priv, pub, msg)
	r, s = dup(sig[:32]), dup(sig[32:])
	bit := c.A % 256
	switch c.Mut {
	case "flip msg":
		if len(msg) > 0 {
			i := c.A % len(msg)
			msg[i] ^= 1 << (c.B % 8)
		} else {
			msg = []byte{byte(c.B)}
		}
	case "flip R":
		r[bit/8] ^= 1 << (bit % 8)
	case "flip S":
		s[bit/8] ^= 1 << (bit % 8)
	case "flip pub":
		pub[bit/8] ^= 1 << (bit % 8)
	case "append msg":
		msg = append(msg, byte(c.B))
	case "cut msg":
		if len(msg) > 0 {
			msg = msg[:c.A%len(msg)]
		}
	case "set msg byte":
		if len(msg) > 0 {
			msg[c.A%len(msg)] = byte(c.B)
		}
	case "other msg":
		msg = dup(c.X)
	case "other pub":
		pub = dup(c.X)
	case "other R":
		r = dup(c.X)
	case "other S":
		s = dup(c.X)
	case "S+kL":
		s = leB(new(big.Int).Add(ref.LE(s), new(big.Int).Mul(ref.L, bi(int64(c.A%15+1)))), 32)
	case "L-S":
		s = leB(new(big.Int).Sub(ref.L, ref.LE(s)), 32)
	case "swap":
		r, s = s, r
	case "neg R":
		r[31] ^= 0x80
	case "neg pub":
		pub[31] ^= 0x80
	case "R byte":
		r[c.A%32] = byte(c.B)
	case "S byte":
		s[c.A%32] = byte(c.B)
	case "zero S":
		s = make([]byte, 32)
	case "R plus torsion":
		r = new(ed.Point).Add(ref.Decode(r), ref.Torsion[1+c.A%7]).Bytes()
	case "pub plus torsion":
		pub = new(ed.Point).Add(ref.Decode(pub), ref.Torsion[1+c.A%7]).Bytes()
	case "random sig":
		r, s = dup(c.X[:32]), dup(c.X[32:])
	}
	return
}

// verdict compares the verifier with the equation.
func verdict(pub, msg, r, s []byte, how int, rec *Rec) error {
	want := ref.Verify(pub, msg, r, s)
	rec.Class("specified %v", want)
	got := signerOf(holder(pub, how), how).Verify(dup(msg), sigOf(r, s))
	if got == want {
		return nil
	}
	if want && !ref.Canonical(pub) {
		rec.Class("non-canonical public key refused")
		return nil // the specification leaves non-canonical encodings of keys to be refused
	}
	return fmt.Errorf("Verify returned %v, the equation says %v: pub %x R %x S %x message (%d bytes) %x", got, want, pub, r, s, len(msg), clipB(msg))
}

func checkS03mut(c verCase, rec *Rec) error {
	rec.Class("%s", c.Mut)
	if c.Mut != "none" {
		rec.NT()
	}
	pub, msg, r, s := c.build()
	orig := ref.Pub(c.Priv)
	if c.How < 5 || !bytes.Equal(pub, orig) {
		return verdict(pub, msg, r, s, c.How, rec)
	}
	// one signer sees the valid signature, the changed one, and the valid one again
	rec.Class("the signer is in use")
	signer := signerOf(holder(pub, c.How), c.How)
	sig := ref.Sign(c.Priv, pub, c.Msg.Bytes())
	obj := sigOf(sig[:32], sig[32:])
	buf := c.Msg.Bytes()
	if c.How >= 15 { // it made the signature itself
		rec.Class("the signer made the signature")
		signer = signerOf(mustPair(c.Priv, pub, c.How), c.How)
		var err error
		if obj, err = signer.Sign(buf); err != nil {
			return err
		}
		if err := same("signature", append(dup(obj.R), obj.S...), sig); err != nil {
			return err
		}
	}
	if c.How < 20 && !signer.Verify(buf, obj) {
		return fmt.Errorf("the valid signature is refused")
	}
	if c.How%10 >= 5 && bytes.Equal(sig, append(dup(r), s...)) { // the same object, another message
		buf = dup(msg)
	} else if c.How%10 < 5 && c.How != 0 || len(buf) != len(msg) {
		obj, buf = sigOf(r, s), dup(msg)
	} else { // in the same memory
		copy(obj.R, r)
		copy(obj.S, s)
		copy(buf, msg)
	}
	if want := ref.Verify(pub, msg, r, s); signer.Verify(buf, obj) != want {
		return fmt.Errorf("Verify returned %v after the valid signature: pub %x R %x S %x message (%d bytes) %x", !want, pub, r, s, len(msg), clipB(msg))
	}
	if !signer.Verify(c.Msg.Bytes(), sigOf(sig[:32], sig[32:])) {
		return fmt.Errorf("the valid signature is refused after another one")
	}
	return nil
}

// craftCase: unusual but valid signatures, made with the knowledge of the scalar.
type craftCase struct {
	A    Pt  // public key point
	ARaw Hex // another encoding of a low-order A, used instead when set
	R    Hex // scalar of R
	RT   int // torsion part of R
	Raw  Hex // R bytes used instead of the encoding when set
	Off  Hex `json:",omitempty"` // the given R is off by this from the one that S belongs to
	Msg  Blob
	How  int
}

func genCraft(t *rapid.T) craftCase {
	c := craftCase{A: genPt(t), Msg: genBlobUp(t, 300), How: rapid.IntRange(0, 4).Draw(t, "how")}
	switch rapid.IntRange(0, 3).Draw(t, "rkind") {
	case 0:
		c.R = leB(bi(rapid.Int64Range(0, 5).Draw(t, "r")), 32)
	case 1:
		c.R = leB(new(big.Int).Mod(genInt(t, 253), ref.L), 32)
	default:
		c.R = leB(ref.ModL(expand(rapid.Uint64().Draw(t, "rseed"), 32)), 32)
	}
	if rapid.IntRange(0, 2).Draw(t, "rt") == 0 {
		c.RT = rapid.IntRange(0, 7).Draw(t, "rtors")
	}
	if rapid.IntRange(0, 5).Draw(t, "raw") == 0 { // non-canonical or low-order R
		v := bi(rapid.Int64Range(0, 18).Draw(t, "y"))
		if rapid.Bool().Draw(t, "plusp") {
			v.Add(v, ref.P)
		}
		c.Raw = leB(v, 32)
		if rapid.Bool().Draw(t, "sign") {
			c.Raw[31] ^= 0x80
		}
	}
	if c.Raw == nil && rapid.IntRange(0, 3).Draw(t, "close") == 0 {
		c.Off = make([]byte, 32)
		n, at := rapid.IntRange(1, 31).Draw(t, "n"), rapid.IntRange(0, 31).Draw(t, "at")
		copy(c.Off[at:], expand(rapid.Uint64().Draw(t, "offseed"), n))
		if rapid.Bool().Draw(t, "bit") {
			clear(c.Off)
			c.Off[at] = 1 << (n % 8)
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "araw") == 0 {
		v := bi(rapid.Int64Range(0, 18).Draw(t, "ay"))
		v.Add(v, ref.P)
		c.ARaw = leB(v, 32)
		if rapid.Bool().Draw(t, "asign") {
			c.ARaw[31] ^= 0x80
		}
	}
	return c
}

func checkS03craft(c craftCase, rec *Rec) error {
	rec.NT()
	a := ref.ModL(c.A.K)
	pub := c.A.Point().Bytes()
	if c.ARaw != nil {
		pub = dup(c.ARaw)
	}
	rs := ref.ModL(c.R)
	r := new(ed.Point).Add(ref.MulBase(rs), ref.Torsion[c.RT&7]).Bytes()
	if c.Raw != nil {
		r = dup(c.Raw)
	}
	if len(c.Off) == 32 {
		rec.Class("R close to the right one")
		for i := range r {
			r[i] ^= c.Off[i]
		}
	}
	rec.Class("A %s", pubClass(pub))
	// a few messages: with a torsion part one in eight is accepted
	for i := 0; i < 3; i++ {
		msg := append(c.Msg.Bytes(), byte(i))
		h := ref.ModL(ref.SHA3512(r, pub, msg))
		s := h.Mul(h, a)
		s.Add(s, rs).Mod(s, ref.L)
		if err := verdict(pub, msg, r, ref.ToLE(s, 32), c.How, rec); err != nil {
			return err
		}
	}
	return nil
}

// flipCase: every single bit of one signature, its key and its message.
type flipCase struct {
	Priv Hex
	Msg  Blob
}

func checkS03flips(c flipCase, rec *Rec) error {
	rec.NT()
	msg := c.Msg.Bytes()
	pub := ref.Pub(c.Priv)
	sig := ref.Sign(c.Priv, pub, msg)
	if !signerOf(mustPair(nil, pub, 0), 0).Verify(msg, sigOf(sig[:32], sig[32:])) {
		return fmt.Errorf("valid signature rejected")
	}
	all := append(append(dup(sig), pub...), msg...)
	for i := 0; i < len(all)*8; i++ {
		b := dup(all)
		b[i/8] ^= 1 << (i % 8)
		if signerOf(mustPair(nil, b[64:96], 0), i).Verify(b[96:], sigOf(b[:32], b[32:64])) {
			if ref.Verify(b[64:96], b[96:], b[:32], b[32:64]) {
				continue
			}
			return fmt.Errorf("accepted with bit %d of R|S|pub|msg flipped", i)
		}
	}
	return nil
}

// ---------- S04 ----------

type canonCase struct {
	R, S Hex
	How  int
	More []Hex `json:",omitempty"` // further S seen by the same signer
}

func genCanon(t *rapid.T) canonCase {
	c := canonCase{R: genBytes32(t), S: leB(genInt(t, 256), 32), How: rapid.IntRange(0, 4).Draw(t, "how")}
	for rapid.IntRange(0, 2).Draw(t, "more") == 0 && len(c.More) < 4 {
		s := leB(genInt(t, 256), 32)
		if rapid.Bool().Draw(t, "near") {
			s = vary(t, c.S)
		}
		c.More = append(c.More, s)
	}
	return c
}

func checkS04(c canonCase, rec *Rec) error {
	kp := mustPair(nil, ref.Pub(make([]byte, 32)), 0)
	signer := signerOf(kp, c.How)
	for _, s := range append([]Hex{c.S}, c.More...) {
		if err := canonOne(signer, c.R, s, rec); err != nil {
			return err
		}
	}
	return nil
}

func canonOne(signer dsa, r, s []byte, rec *Rec) error {
	c := canonCase{R: r, S: s}
	S := ref.LE(c.S)
	want := S.Sign() > 0 && S.Cmp(ref.L) < 0
	switch {
	case S.Sign() == 0:
		rec.Class("zero")
	case want:
		rec.Class("canonical")
	case S.Cmp(ref.L) == 0:
		rec.Class("exactly L")
	default:
		rec.Class("above L")
	}
	if !want || S.BitLen() < 250 {
		rec.NT()
	}
	sig := sigOf(c.R, c.S)
	if got := signer.IsCanonicalSignature(sig); got != want {
		return fmt.Errorf("IsCanonicalSignature(S=%s) = %v", S, got)
	}
	can, err := signer.MakeSignatureCanonical(sig)
	if err != nil {
		return fmt.Errorf("MakeSignatureCanonical: %v", err)
	}
	m := ref.ModL(c.S)
	if err := first(same("R kept", can.R, c.R), same("S mod L", can.S, ref.ToLE(m, 32)), same("original R", sig.R, c.R), same("original S", sig.S, c.S)); err != nil {
		return err
	}
	if m.Sign() > 0 && !signer.IsCanonicalSignature(can) {
		return fmt.Errorf("made canonical but is not: %x", can.S)
	}
	can2, err := signer.MakeSignatureCanonical(can)
	if err != nil {
		return fmt.Errorf("MakeSignatureCanonical again: %v", err)
	}
	return first(same("idempotent R", can2.R, c.R), same("idempotent S", can2.S, ref.ToLE(m, 32)))
}

type shiftCase struct {
	Priv   Hex
	Msg    Blob
	K      int
	Parsed bool
	How    int
}

func genShift(t *rapid.T) shiftCase {
	return shiftCase{genPriv(t), genBlobUp(t, 300), rapid.IntRange(1, 15).Draw(t, "k"), rapid.Bool().Draw(t, "parsed"), rapid.IntRange(0, 4).Draw(t, "how")}
}

func checkS04shift(c shiftCase, rec *Rec) error {
	rec.NT()
	rec.Class("k=%d", c.K)
	msg := c.Msg.Bytes()
	pub := ref.Pub(c.Priv)
	sig := ref.Sign(c.Priv, pub, msg)
	s := new(big.Int).Mul(ref.L, bi(int64(c.K)))
	s.Add(s, ref.LE(sig[32:]))
	if s.BitLen() > 256 {
		rec.Class("does not fit")
		return nil
	}
	shifted := append(dup(sig[:32]), ref.ToLE(s, 32)...)
	signer := signerOf(holder(pub, 0), c.How)
	x := sigOf(shifted[:32], shifted[32:])
	if c.Parsed {
		var err error
		if x, err = xc.NewSignatureFromBytes(dup(shifted)); err != nil {
			return err
		}
	}
	if signer.IsCanonicalSignature(x) {
		return fmt.Errorf("S + %d L called canonical", c.K)
	}
	if signer.Verify(msg, x) {
		return fmt.Errorf("S + %d L verifies", c.K)
	}
	can, err := signer.MakeSignatureCanonical(x)
	if err != nil {
		return err
	}
	if err := first(same("canonicalised", can.Bytes(), sig), same("given signature", x.Bytes(), shifted), same("canonicalised again", can.Bytes(), sig)); err != nil {
		return err
	}
	if !signer.Verify(msg, can) {
		return fmt.Errorf("canonicalised signature does not verify")
	}
	return nil
}

// ---------- S05 ----------

type hostileCase struct {
	Pub   Hex
	R, S  Hex
	Msg   Blob
	How   int
	Full  bool // the pair also has a private key
	Prime Hex  `json:",omitempty"` // private key of a signature that the signer sees before
}

func genHostile(t *rapid.T) hostileCase {
	c := hostileCase{Pub: genPubBytes(t), R: genPubBytes(t), S: leB(genInt(t, 253), 32), Msg: genBlobUp(t, 300), How: rapid.IntRange(0, 4).Draw(t, "how"), Full: rapid.Bool().Draw(t, "full")}
	if rapid.Bool().Draw(t, "valid") { // start from an honest signature
		priv := genPriv(t)
		c.Pub = ref.Pub(priv)
		s := ref.Sign(priv, c.Pub, c.Msg.Bytes())
		c.R, c.S = s[:32], s[32:]
		if rapid.Bool().Draw(t, "prime") {
			c.Prime = priv
		}
	}
	resize := func(b Hex, what string) Hex {
		if rapid.IntRange(0, 2).Draw(t, what) > 0 {
			return b
		}
		n := rapid.IntRange(0, 96).Draw(t, what+"len")
		fill := rapid.SampledFrom([]byte{0, 0, 0xff, 1}).Draw(t, what+"fill")
		r := append(dup(b), bytes.Repeat([]byte{fill}, 96)...)
		return r[:n]
	}
	c.R = resize(c.R, "R")
	c.S = resize(c.S, "S")
	if rapid.IntRange(0, 3).Draw(t, "pubsize") == 0 {
		c.Pub = resize(c.Pub, "P")
		if rapid.Bool().Draw(t, "resign") { // the equation holds for the odd key: every size that some decoder takes
			priv := genPriv(t)
			n := rapid.SampledFrom([]int{31, 33, 63, 64, 64, 64, 65, 96}).Draw(t, "Psize")
			c.Pub = append(ref.Pub(priv), genBlobN(t, 64).Bytes()...)[:n]
			s := ref.Sign(priv, c.Pub, c.Msg.Bytes())
			c.R, c.S = s[:32], s[32:]
		}
	}
	return c
}

func checkS05(c hostileCase, rec *Rec) error {
	pub := xc.NewPublicKey(dup(c.Pub))
	kp := &xc.KeyPair{PublicKey: pub}
	if c.Full {
		kp.PrivateKey = xc.NewPrivateKey(make([]byte, 32))
	}
	cl := pubClass(c.Pub)
	rec.Class("pub %s", cl)
	if len(c.R) != 32 || len(c.S) != 32 {
		rec.Class("wrong part length")
	}
	rec.NT()
	signer := signerOf(kp, c.How)
	if c.Prime != nil {
		rec.Class("the signer is in use")
		s := ref.Sign(c.Prime, c.Pub, c.Msg.Bytes())
		if want := ref.Verify(c.Pub, c.Msg.Bytes(), s[:32], s[32:]); len(c.Pub) == 32 && ref.Canonical(c.Pub) && signer.Verify(c.Msg.Bytes(), sigOf(s[:32], s[32:])) != want {
			return fmt.Errorf("a signature in between: Verify does not return %v", want)
		}
	}
	got := signer.Verify(c.Msg.Bytes(), sigOf(c.R, c.S))
	if !got {
		return nil
	}
	if len(c.R) != 32 || len(c.S) != 32 {
		return fmt.Errorf("accepted with parts of %d and %d bytes", len(c.R), len(c.S))
	}
	if len(c.Pub) != 32 || ref.Decode(c.Pub) == nil {
		return fmt.Errorf("accepted under a %d-byte key that is no encoding of a point", len(c.Pub))
	}
	return nil
}

// ---------- N01 ----------

type partsCase struct{ R, S Hex }

func checkN01parts(c partsCase, rec *Rec) error {
	sig, err := xc.NewSignature(dup(c.R), dup(c.S))
	ok := len(c.R) == 32 && len(c.S) == 32
	rec.Class("accepted %v", ok)
	rec.NT()
	if !ok {
		if err == nil || sig != nil {
			return fmt.Errorf("parts of %d and %d bytes accepted", len(c.R), len(c.S))
		}
		return nil
	}
	if err != nil {
		return err
	}
	return sigHolds(sig, c.R, c.S)
}

func sigHolds(sig *xc.Signature, r, s []byte) error {
	b := append(dup(r), s...)
	if err := first(same("R", sig.R, r), same("S", sig.S, s), same("Bytes", sig.Bytes(), b), same("Bytes again", sig.Bytes(), b)); err != nil {
		return err
	}
	if sig.GetR().Cmp(ref.LE(r)) != 0 || sig.GetS().Cmp(ref.LE(s)) != 0 {
		return fmt.Errorf("integers R %s S %s for %x", sig.GetR(), sig.GetS(), b)
	}
	if sig.String() != hex.EncodeToString(b) {
		return fmt.Errorf("String %s for %x", sig.String(), b)
	}
	// what was handed out is the caller's own
	mine, ir, is := sig.Bytes(), sig.GetR(), sig.GetS()
	overwrite(mine, 0)
	overwriteInt(ir)
	overwriteInt(is)
	if err := first(same("Bytes after earlier ones were written over", sig.Bytes(), b), eqInt("R after an earlier integer was changed", sig.GetR(), ref.LE(r)), eqInt("S after an earlier integer was changed", sig.GetS(), ref.LE(s))); err != nil {
		return err
	}
	if sig.String() != hex.EncodeToString(b) {
		return fmt.Errorf("String %s for %x after results were changed", sig.String(), b)
	}
	p, err := xc.NewSignatureFromBytes(sig.Bytes())
	if err != nil {
		return fmt.Errorf("parsing own bytes: %v", err)
	}
	q, err := xc.NewSignatureFromBigInt(sig.GetR(), sig.GetS())
	if err != nil {
		return fmt.Errorf("building from own integers: %v", err)
	}
	return first(same("parsed R", p.R, r), same("parsed S", p.S, s), same("from integers R", q.R, r), same("from integers S", q.S, s))
}

type bytesCase struct{ B Blob }

// a valid signature in another shape
type shapeSigCase struct {
	Priv Hex
	Msg  Blob
	Form []Form
	Part int `json:",omitempty"` // 0: R, 1: S, 2: the key, more: several
	How  int `json:",omitempty"`
}

func checkN01bytes(c bytesCase, rec *Rec) error { return checkN01(c.B.Bytes(), rec) }

func checkN01(b []byte, rec *Rec) error {
	rec.Class("64 bytes %v", len(b) == 64)
	rec.NT()
	sig, err := xc.NewSignatureFromBytes(dup(b))
	if len(b) != 64 {
		if err == nil || sig != nil {
			return fmt.Errorf("%d bytes accepted", len(b))
		}
		return nil
	}
	if err != nil {
		return err
	}
	return sigHolds(sig, b[:32], b[32:])
}

// intsCase holds decimal integers; "nil" for nil.
type intsCase struct{ R, S string }

func genSigInt(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "sikind") {
	case 0:
		if rapid.IntRange(0, 3).Draw(t, "nil") == 0 {
			return "nil"
		}
		return new(big.Int).Neg(genInt(t, 300)).String()
	case 1:
		return genInt(t, 300).String()
	case 2:
		v := new(big.Int).Lsh(ref.One, uint(rapid.SampledFrom([]int{31, 32, 63, 64, 128, 255, 256, 257, 320}).Draw(t, "pow")))
		return v.Add(v, bi(rapid.Int64Range(-2, 2).Draw(t, "off"))).String()
	case 3:
		return bi(rapid.Int64Range(-3, 300).Draw(t, "small")).String()
	}
	return genInt(t, 256).String()
}

func checkN01ints(c intsCase, rec *Rec) error {
	conv := func(s string) *big.Int {
		if s == "nil" {
			return nil
		}
		v, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic(harnessError("bad integer " + s))
		}
		return v
	}
	fits := func(v *big.Int) bool { return v != nil && v.Sign() >= 0 && v.BitLen() <= 256 }
	r, s := conv(c.R), conv(c.S)
	ok := fits(r) && fits(s)
	rec.Class("fits %v", ok)
	if !ok || r.BitLen() > 31 || s.BitLen() > 31 {
		rec.NT()
	}
	sig, err := xc.NewSignatureFromBigInt(r, s)
	if (r != nil && r.String() != c.R) || (s != nil && s.String() != c.S) {
		return fmt.Errorf("the integers given were changed to %v %v", r, s)
	}
	if !ok {
		if err == nil || sig != nil {
			return fmt.Errorf("integers that do not fit were accepted: %s %s", c.R, c.S)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("integers that fit were refused: %v", err)
	}
	return sigHolds(sig, ref.ToLE(r, 32), ref.ToLE(s, 32))
}

func init() {
	zero := Hex(make([]byte, 32))
	register(&Prop{ID: "S01", Facets: []*Facet{
		afterFailures(400, 20000, "verify"),
		F("sign-verify", "a non-empty message that is not all zero", 16000, 400000, genSignCase(5000), checkS01,
			signCase{zero, Blob{}, 0}, signCase{zero, Blob{Len: 1 << 20, Kind: "random", Seed: 1}, 1}, signCase{zero, Blob{Len: 1<<22 + 3, Kind: "count"}, 2}),
		F("long-messages", "a non-empty message that is not all zero", 2000, 40000, func(t *rapid.T) signCase {
			return signCase{genPrivAny(t), genBlobN(t, genLong(t, 4000, 300000)), rapid.IntRange(0, 14).Draw(t, "how")}
		}, checkS01),
		many(8, 80, 3000, manySign),
	}})
	register(&Prop{ID: "S02", Facets: []*Facet{
		refilled(5000, 200000, false, "sign"),
		overlapping(4000, 200000, "sign"),
		F("exact-value", "a non-empty message, an explicitly given other public key, or other signatures in between", 40000, 1200000, genDet(3000, 0), checkS02),
		F("between-others", "a non-empty message, an explicitly given other public key, or other signatures in between", 5000, 100000, genDet(300, 5), checkS02),
		F("long-messages", "a non-empty message, an explicitly given other public key, or other signatures in between", 2000, 40000, func(t *rapid.T) detCase {
			return detCase{Priv: genPrivAny(t), Msg: genBlobN(t, genLong(t, 3000, 300000)), How: rapid.IntRange(0, 14).Draw(t, "how")}
		}, checkS02,
			detCase{Priv: zero, Msg: Blob{Len: 1 << 22, Kind: "random", Seed: 3}},
			detCase{Priv: zero, Msg: Blob{Len: 9<<20 + 5, Kind: "count"}, How: 2}),
		many(8, 80, 6000, manyExact),
	}})
	register(&Prop{ID: "S03", Facets: []*Facet{
		afterFailures(400, 20000, "verify", "bad-keys"),
		refilled(5000, 200000, false, "verify"),
		overlapping(4000, 200000, "verify"),
		F("changed-signature", "something was changed", 30000, 800000, genVer, checkS03mut),
		F("long-messages", "every case: a message of 3000 to 300000 bytes, changed anywhere, at its ends or not at all", 2000, 40000, func(t *rapid.T) verCase {
			return verCase{Priv: genPriv(t), Msg: genBlobN(t, genLong(t, 3000, 300000)), Mut: rapid.SampledFrom([]string{"none", "flip msg", "flip msg", "append msg", "cut msg", "set msg byte"}).Draw(t, "mut"),
				A: rapid.IntRange(0, 1<<24).Draw(t, "a"), B: rapid.IntRange(0, 255).Draw(t, "b"), How: rapid.IntRange(0, 24).Draw(t, "how")}
		}, checkS03mut,
			verCase{Priv: zero, Msg: Blob{Len: 9<<20 + 1, Kind: "random", Seed: 4}, Mut: "flip msg", A: 9 << 20},
			verCase{Priv: zero, Msg: Blob{Len: 9<<20 + 1, Kind: "random", Seed: 4}, Mut: "cut msg", How: 3},
			verCase{Priv: zero, Msg: Blob{Len: 9<<20 + 1, Kind: "random", Seed: 4}, Mut: "none", How: 1}),
		F("crafted", "every case: signatures built for chosen keys (small, negative, low and mixed order, unusual encodings) and chosen R, three messages each", 8000, 200000, genCraft, checkS03craft),
		F("every-bit", "every case: all single-bit changes of R, S, key and message", 48, 800, func(t *rapid.T) flipCase { return flipCase{genPriv(t), genBlob(t, 40)} }, checkS03flips),
		many(8, 80, 5000, manyVerify),
	}, Assumptions: []string{"public keys whose y is not below p may be refused instead of being taken modulo p"}})
	register(&Prop{ID: "S04", Facets: []*Facet{
		refilled(8000, 300000, false, "signature"),
		overlapping(6000, 300000, "canonical"),
		F("canonical", "S is zero, at least L, or below 2^250", 60000, 2000000, genCanon, checkS04,
			canonCase{zero, zero, 0, nil}, canonCase{zero, leB(ref.L, 32), 1, nil}, canonCase{zero, leB(new(big.Int).Sub(ref.L, ref.One), 32), 2, nil}, canonCase{zero, leB(new(big.Int).Add(ref.L, ref.One), 32), 3, nil},
			canonCase{zero, leB(new(big.Int).Lsh(ref.One, 64), 32), 3, nil}, canonCase{zero, leB(bi(-1), 32), 3, nil}),
		F("shifted", "every case: a valid signature with S replaced by S + k*L", 16000, 400000, genShift, checkS04shift),
	}})
	register(&Prop{ID: "S05", Facets: []*Facet{
		afterFailures(400, 20000, "verify", "bad-keys"),
		F("hostile", "every case: keys and parts of all kinds and lengths", 40000, 1500000, genHostile, checkS05),
		F("reshaped", "every case: a valid signature with its parts or key in other shapes", 20000, 600000, func(t *rapid.T) shapeSigCase {
			return shapeSigCase{genPriv(t), genBlob(t, 60), genForms(t), rapid.IntRange(0, 6).Draw(t, "part"), rapid.IntRange(0, 11).Draw(t, "how")}
		}, func(c shapeSigCase, rec *Rec) error {
			pub := []byte(ref.Pub(c.Priv))
			s := ref.Sign(c.Priv, pub, c.Msg.Bytes())
			r, s := s[:32], s[32:]
			change := func(b []byte, on bool) []byte {
				if on {
					return reshape(b, c.Form)
				}
				return b
			}
			r, s, pub = change(r, c.Part == 0 || c.Part == 3 || c.Part > 4), change(s, c.Part == 1 || c.Part == 3 || c.Part == 4 || c.Part > 5), change(pub, c.Part == 2 || c.Part >= 4)
			return checkS05(hostileCase{Pub: pub, R: r, S: s, Msg: c.Msg, How: c.How, Full: c.How%2 == 1}, rec)
		}),
	}})
	n := func(t *rapid.T) Hex {
		b := genBytes32(t)
		if rapid.IntRange(0, 3).Draw(t, "resize") == 0 {
			b = append(b, genBytes32(t)...)[:rapid.IntRange(0, 64).Draw(t, "n")]
		}
		return b
	}
	register(&Prop{ID: "N01", Facets: []*Facet{
		afterFailures(400, 20000, "parse"),
		refilled(40000, 1000000, false, "signature"),
		F("parts", "every case", 80000, 2000000, func(t *rapid.T) partsCase { return partsCase{n(t), n(t)} }, checkN01parts),
		F("bytes", "every case", 60000, 1000000, func(t *rapid.T) bytesCase {
			if rapid.IntRange(0, 2).Draw(t, "fit") > 0 {
				return bytesCase{genBlobN(t, 64)}
			}
			return bytesCase{genBlobUp(t, 200)}
		}, checkN01bytes, bytesCase{Blob{Len: 63}}, bytesCase{Blob{Len: 65}}, bytesCase{Blob{Len: 128}}),
		F("reshaped", "every case", 40000, 1000000, func(t *rapid.T) shapeSigCase {
			return shapeSigCase{Priv: genPriv(t), Msg: genBlob(t, 40), Form: genForms(t)}
		}, func(c shapeSigCase, rec *Rec) error {
			s := ref.Sign(c.Priv, ref.Pub(c.Priv), c.Msg.Bytes())
			b := reshape(s, c.Form)
			return first(checkN01(b, rec), checkN01parts(partsCase{s[:32], reshape(s[32:], c.Form)}, rec), checkN01parts(partsCase{reshape(s[:32], c.Form), s[32:]}, rec))
		}),
		F("integers", "an integer does not fit, or is above 2^31", 80000, 2000000, func(t *rapid.T) intsCase { return intsCase{genSigInt(t), genSigInt(t)} }, checkN01ints,
			intsCase{"nil", "nil"}, intsCase{"1", "nil"}, intsCase{"nil", "1"}, intsCase{"0", "0"}),
	}})
}

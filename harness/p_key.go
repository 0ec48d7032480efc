package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- K01 ----------

type privCase struct {
	Priv Hex
	How  int
}

func genPrivCase(t *rapid.T) privCase {
	how := rapid.IntRange(0, 5).Draw(t, "how")
	if how >= 4 { // generated
		return privCase{genPriv(t), how}
	}
	return privCase{genPrivAny(t), how}
}

func checkK01(c privCase, rec *Rec) error {
	want := ref.Pub(c.Priv)
	rec.Class("way %d", c.How)
	privClass(c.Priv, rec)
	if !bytes.Equal(c.Priv, make([]byte, 32)) {
		rec.NT()
	}
	var pub *xc.PublicKey
	switch c.How {
	case 0:
		pub = xc.NewEd25519KeyGenerator(nil).DerivePublicKey(xc.NewPrivateKey(dup(c.Priv)))
	case 1, 2:
		pub = mustPair(c.Priv, nil, c.How).PublicKey
	case 3:
		pub = xc.CryptoEngines.DefaultEngine.CreateKeyGenerator().DerivePublicKey(&xc.PrivateKey{Raw: dup(c.Priv)})
	case 4:
		var kp *xc.KeyPair
		var err error
		withRand(Source{Fixed: c.Priv, End: -1}.reader(), func() { kp, err = xc.NewRandomKeyPair() })
		if err != nil {
			return err
		}
		if err := same("generated private key", kp.PrivateKey.Raw, c.Priv); err != nil {
			return err
		}
		pub = kp.PublicKey
	case 5:
		kp, err := xc.NewEd25519KeyGenerator(Source{Fixed: c.Priv, End: 32, Mode: "eof"}.reader()).GenerateKeyPair()
		if err != nil {
			return err
		}
		pub = kp.PublicKey
	}
	if err := spent("public key", pub.Raw, want); err != nil || c.How > 3 {
		return err
	}
	return same("public key, derived once more", xc.NewEd25519KeyGenerator(nil).DerivePublicKey(xc.NewPrivateKey(dup(c.Priv))).Raw, want)
}

// the scalar itself, as the clamped hash
func checkK01scalar(c privCase, rec *Rec) error {
	rec.NT()
	k := xc.NewPrivateKey(dup(c.Priv))
	if c.How%2 == 1 {
		k = &xc.PrivateKey{Raw: dup(c.Priv)}
	}
	return first(spent("clamped scalar", xc.PrepareForScalarMultiply(k).Raw, ref.Clamp(c.Priv)), same("key bytes", k.Raw, c.Priv),
		same("clamped scalar again", xc.PrepareForScalarMultiply(k).Raw, ref.Clamp(c.Priv)))
}

// ---------- K02 ----------

type genCase struct {
	Src  Source
	N    int
	Ways []int
}

func genGen(t *rapid.T) genCase {
	c := genCase{Src: genFailingSource(t, 200), N: rapid.IntRange(1, 6).Draw(t, "n")}
	if rapid.IntRange(0, 2).Draw(t, "endless") == 0 {
		c.Src.End = -1
	}
	c.Src.Heal = rapid.Bool().Draw(t, "heal")
	if rapid.Bool().Draw(t, "fixed") { // seeds with a structure
		for i := 0; i < c.N; i++ {
			c.Src.Fixed = append(c.Src.Fixed, genBytes32(t)...)
		}
		if rapid.Bool().Draw(t, "stream") {
			c.Src.Fixed = genStream(t, 32*c.N)
		}
	}
	for i := 0; i < c.N; i++ {
		c.Ways = append(c.Ways, rapid.IntRange(0, 3).Draw(t, "way"))
	}
	return c
}

func checkK02(c genCase, rec *Rec) error {
	src := c.Src.reader()
	g := xc.NewEd25519KeyGenerator(src)
	if len(c.Src.Chunks) > 0 || c.Src.End >= 0 {
		rec.NT()
	}
	var kept []keptPair
	for i := 0; i < c.N; i++ {
		pos := src.pos
		ok := c.Src.End < 0 || (c.Src.Heal && src.failed) || pos+32 <= c.Src.End
		var kp *xc.KeyPair
		var err error
		if c.Ways[i] == 0 {
			kp, err = g.GenerateKeyPair()
		} else { // default engines and a nil source use the system source, replaced here
			withRand(src, func() {
				switch c.Ways[i] {
				case 1:
					kp, err = xc.NewRandomKeyPair()
				case 2:
					kp, err = xc.NewKeyPairByEngine(xc.CryptoEngines.Ed25519Engine)
				case 3:
					kp, err = xc.NewEd25519KeyGenerator(nil).GenerateKeyPair()
				}
			})
		}
		if !ok {
			rec.Class("source fails")
			if err == nil || kp != nil {
				return fmt.Errorf("generation %d: pair %v, error %v although the source ends after %d of 32 bytes", i, kp != nil, err, c.Src.End-pos)
			}
			continue
		}
		rec.Class("source delivers")
		if err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		want := src.at(pos, 32)
		if src.pos != pos+32 {
			return fmt.Errorf("generation %d took %d bytes", i, src.pos-pos)
		}
		if err := first(same("private key", kp.PrivateKey.Raw, want), same("public key", kp.PublicKey.Raw, ref.Pub(want))); err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		kept = append(kept, keptPair{kp, want})
		if i%3 == 2 { // the caller wipes one
			overwrite(kp.PrivateKey.Raw, uint64(i))
			overwrite(kp.PublicKey.Raw, uint64(i))
			kept = kept[:len(kept)-1]
		}
	}
	return stillHold(kept)
}

type keptPair struct {
	kp   *xc.KeyPair
	priv Hex
}

// stillHold compares pairs that were generated before others.
func stillHold(kept []keptPair) error {
	for i, k := range kept {
		if err := first(same("private key", k.kp.PrivateKey.Raw, k.priv), same("public key", k.kp.PublicKey.Raw, ref.Pub(k.priv))); err != nil {
			return fmt.Errorf("pair %d in the end: %v", i, err)
		}
	}
	return nil
}

// ---------- K03 ----------

type reprCase struct {
	Raw  Hex
	Case int // letter case of the hex string
	Seed uint64
}

func mixCase(s string, how int, seed uint64) string {
	switch how {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(strings.ToLower(s))
	m := mix(seed)
	for i := range b {
		if m.next()&1 == 1 {
			b[i] = byte(strings.ToUpper(string(b[i]))[0])
		}
	}
	return string(b)
}

func genRepr(t *rapid.T) reprCase {
	return reprCase{genBytes32(t), rapid.IntRange(0, 2).Draw(t, "case"), rapid.Uint64().Draw(t, "seed")}
}

func checkK03(c reprCase, rec *Rec) error {
	if c.Raw[0] == 0 {
		rec.Class("leading zero byte")
	}
	if c.Raw[0] == 0 || c.Case != 0 {
		rec.NT()
	}
	h := mixCase(hex.EncodeToString(c.Raw), c.Case, c.Seed)
	low, up := strings.ToLower(h), strings.ToUpper(h)
	a := xc.NewPrivateKey(dup(c.Raw))
	b, err := xc.NewPrivateKeyfromHexString(h)
	if err != nil {
		return fmt.Errorf("hex %s refused: %v", h, err)
	}
	n := new(big.Int).SetBytes(c.Raw)
	d := xc.NewPrivateKeyFromBigInt(n)
	for i, k := range []*xc.PrivateKey{a, b, d} {
		if err := same(fmt.Sprintf("private key built in way %d", i), k.Raw, c.Raw); err != nil {
			return err
		}
		if k.String() != low {
			return fmt.Errorf("private key renders as %s, not %s", k.String(), low)
		}
		r, err := xc.NewPrivateKeyfromHexString(k.String())
		if err != nil {
			return fmt.Errorf("own rendering refused: %v", err)
		}
		if err := same("re-imported private key", r.Raw, c.Raw); err != nil {
			return err
		}
	}
	if n.Cmp(new(big.Int).SetBytes(c.Raw)) != 0 {
		return fmt.Errorf("the integer was changed")
	}
	want := ref.Pub(c.Raw)
	for i, k := range []*xc.PrivateKey{b, d} {
		kp, err := xc.NewKeyPair(k, nil, nil)
		if err != nil {
			return err
		}
		if err := same(fmt.Sprintf("public key of private key built in way %d", i+1), kp.PublicKey.Raw, want); err != nil {
			return err
		}
	}
	p := xc.NewPublicKey(dup(c.Raw))
	q, err := xc.NewPublicKeyfromHex(h)
	if err != nil {
		return fmt.Errorf("public key hex %s refused: %v", h, err)
	}
	if p.String() != up || q.String() != up {
		return fmt.Errorf("public key renders as %s / %s, not %s", p, q, up)
	}
	r, err := xc.NewPublicKeyfromHex(p.String())
	if err != nil {
		return err
	}
	return first(same("public key", p.Raw, c.Raw), same("public key from hex", q.Raw, c.Raw), same("public key from own rendering", r.Raw, c.Raw))
}

type hexCase struct{ S string }

type shapeKeyCase struct {
	Key  Hex
	Form []Form
}

func genHexStr(t *rapid.T) hexCase {
	var n int
	switch rapid.IntRange(0, 3).Draw(t, "n") {
	case 0:
		n = rapid.IntRange(0, 140).Draw(t, "len")
	case 1:
		n = rapid.IntRange(61, 67).Draw(t, "len")
	default:
		n = 64
	}
	h := hex.EncodeToString(expand(rapid.Uint64().Draw(t, "seed"), n/2+1))[:n]
	h = mixCase(h, rapid.IntRange(0, 2).Draw(t, "case"), 5)
	b := []byte(h)
	if n > 0 && rapid.IntRange(0, 1).Draw(t, "bad") == 0 {
		k := rapid.IntRange(1, 2).Draw(t, "nbad")
		for i := 0; i < k; i++ {
			b[rapid.IntRange(0, n-1).Draw(t, "pos")] = rapid.SampledFrom([]byte{'g', 'G', 'x', 'X', '@', '`', '/', ':', ' ', '\n', 0, 0xff, '-', '+', 'z', 'Z', '_', '\t', '\r', '.', ',', '\v'}).Draw(t, "ch")
		}
	}
	if n > 8 && rapid.IntRange(0, 5).Draw(t, "token") == 0 { // what other notations of numbers have in them
		tok := rapid.SampledFrom([]string{"0x", "0X", "0b", "0o", "\n", "\r\n", " ", "  ", "\"\"", "''", "\x00", "h", "=", "==", "ef\u00bc\u0090", "e+", "p1"}).Draw(t, "tok")
		copy(b[rapid.SampledFrom([]int{0, n - len(tok)}).Draw(t, "end"):], tok)
		if tok == "\"\"" || tok == "''" || tok == "  " { // at both ends
			b[0], b[n-1] = tok[0], tok[0]
		}
	}
	if n > 2 && rapid.IntRange(0, 19).Draw(t, "grouped") == 0 { // separators
		sep := rapid.SampledFrom([]byte{'_', ':', ' ', '-', ','}).Draw(t, "sep")
		for i, k := rapid.SampledFrom([]int{2, 4, 8, 16}).Draw(t, "group"), 0; i < n; i, k = i+k+1, rapid.SampledFrom([]int{2, 4, 8, 16}).Draw(t, "group") {
			b[i] = sep
		}
	}
	s := string(b)
	if rapid.IntRange(0, 9).Draw(t, "prefix") == 0 {
		s = rapid.SampledFrom([]string{"0x", " ", "+", "-", "\ufeff"}).Draw(t, "pre") + s
	}
	return hexCase{s}
}

func checkK03hex(c hexCase, rec *Rec) error {
	valid := true
	for i := 0; i < len(c.S); i++ {
		ch := c.S[i]
		if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
			valid = false
		}
	}
	n := (len(c.S) + 1) / 2
	rec.Class("digits %v, 32 bytes %v", valid, n == 32)
	rec.NT()
	sk, serr := xc.NewPrivateKeyfromHexString(c.S)
	pk, perr := xc.NewPublicKeyfromHex(c.S)
	if valid && n == 32 {
		s := c.S
		if len(s)%2 == 1 {
			s = "0" + s
		}
		want, _ := hex.DecodeString(s)
		if serr != nil || perr != nil {
			return fmt.Errorf("%q refused: %v, %v", c.S, serr, perr)
		}
		return first(same("private key", sk.Raw, want), same("public key", pk.Raw, want))
	}
	if serr == nil || perr == nil || sk != nil || pk != nil {
		return fmt.Errorf("%q accepted: private key %v (%v), public key %v (%v)", c.S, sk != nil, serr, pk != nil, perr)
	}
	if valid {
		if serr != xc.ErrInvalidSizePrivateKey || perr != xc.ErrInvalidSizePublicKey {
			return fmt.Errorf("%q has the wrong size, but the errors are %v and %v", c.S, serr, perr)
		}
	} else if serr == xc.ErrInvalidSizePrivateKey || perr == xc.ErrInvalidSizePublicKey {
		return fmt.Errorf("%q is malformed, but the errors are %v and %v", c.S, serr, perr)
	}
	return nil
}

// ---------- K04 ----------

type pairCase struct {
	Priv Hex // empty: none
	Pub  Hex // nil: none given
	Has  bool
	Eng  int
}

func checkK04pair(c pairCase, rec *Rec) error {
	rec.NT()
	var sk *xc.PrivateKey
	if c.Has {
		sk = xc.NewPrivateKey(dup(c.Priv))
	}
	var pk *xc.PublicKey
	if c.Pub != nil || !c.Has {
		pk = xc.NewPublicKey(dup(c.Pub))
	}
	kp, err := xc.NewKeyPair(sk, pk, engineOf(c.Eng))
	rec.Class("private %v, public %v", c.Has, pk != nil)
	if pk != nil && len(c.Pub) != 32 {
		rec.Class("public key of wrong size")
		if err == nil || kp != nil {
			return fmt.Errorf("public key of %d bytes accepted", len(c.Pub))
		}
		return nil
	}
	if err != nil {
		return err
	}
	if kp.HasPrivateKey() != c.Has || (kp.PrivateKey != nil) != c.Has {
		return fmt.Errorf("HasPrivateKey %v", kp.HasPrivateKey())
	}
	if c.Has {
		if kp.PrivateKey != sk {
			return fmt.Errorf("another private key")
		}
		if err := same("private key", kp.PrivateKey.Raw, c.Priv); err != nil {
			return err
		}
	}
	if pk != nil {
		if kp.PublicKey != pk {
			return fmt.Errorf("another public key")
		}
		return same("public key", kp.PublicKey.Raw, c.Pub)
	}
	return same("derived public key", kp.PublicKey.Raw, ref.Pub(c.Priv))
}

// a pair without a private key
type pubOnlyCase struct {
	Priv, Other Hex
	Msg         Blob
	How         int
}

func checkK04pubOnly(c pubOnlyCase, rec *Rec) error {
	rec.NT()
	msg := c.Msg.Bytes()
	pub := ref.Pub(c.Priv)
	full := mustPair(c.Priv, nil, c.How)
	only := mustPair(nil, pub, c.How/3)
	other := mustPair(c.Other, nil, 0)
	if only.HasPrivateKey() {
		return fmt.Errorf("reports a private key")
	}
	if s, err := signerOf(only, c.How).Sign(dup(msg)); err == nil || s != nil {
		return fmt.Errorf("signed without a private key: %v %v", s, err)
	}
	sig := ref.Sign(c.Priv, pub, msg)
	if !signerOf(only, c.How).Verify(dup(msg), sigOf(sig[:32], sig[32:])) || !signerOf(full, c.How).Verify(dup(msg), sigOf(sig[:32], sig[32:])) {
		return fmt.Errorf("valid signature refused")
	}
	sig[c.How%64] ^= 1
	if signerOf(only, c.How).Verify(dup(msg), sigOf(sig[:32], sig[32:])) != signerOf(full, c.How).Verify(dup(msg), sigOf(sig[:32], sig[32:])) {
		return fmt.Errorf("the public key alone judges a changed signature differently from the full pair")
	}
	if ct, err := cipherOf(only, other, nil, c.How).Encrypt(dup(msg)); err == nil || ct != nil {
		return fmt.Errorf("encrypted without the private key of the sender: %x %v", ct, err)
	}
	ct, err := cipherOf(other, only, nil, c.How).Encrypt(dup(msg))
	if err != nil {
		return fmt.Errorf("encrypting to a public key: %v", err)
	}
	if pt, err := cipherOf(other, only, nil, c.How).Decrypt(ct); err == nil || pt != nil {
		return fmt.Errorf("decrypted without the private key of the recipient: %x %v", pt, err)
	}
	pt, err := cipherOf(mustPair(nil, other.PublicKey.Raw, 0), full, nil, c.How+1).Decrypt(ct)
	if err != nil {
		return fmt.Errorf("decrypting with the public key of the sender: %v", err)
	}
	return same("decrypted", pt, msg)
}

// recording stand-ins of the wrapped interfaces
type fakeDsa struct {
	calls []string
	mess  [][]byte
	sigs  []*xc.Signature
	sig   *xc.Signature
	err   error
	ok    bool
}

func (f *fakeDsa) rec(call string, m []byte, s *xc.Signature) {
	f.calls, f.mess, f.sigs = append(f.calls, call), append(f.mess, m), append(f.sigs, s)
}
func (f *fakeDsa) Sign(m []byte) (*xc.Signature, error) { f.rec("sign", m, nil); return f.sig, f.err }
func (f *fakeDsa) Verify(m []byte, s *xc.Signature) bool {
	f.rec("verify", m, s)
	return f.ok
}
func (f *fakeDsa) IsCanonicalSignature(s *xc.Signature) bool {
	f.rec("is", nil, s)
	return f.ok
}
func (f *fakeDsa) MakeSignatureCanonical(s *xc.Signature) (*xc.Signature, error) {
	f.rec("make", nil, s)
	return f.sig, f.err
}

type fakeCipher struct{ xc.BlockCipher }
type fakeEngine struct {
	dsa        *fakeDsa
	cipher     *fakeCipher
	gotDsa     *xc.KeyPair
	gotS, gotR *xc.KeyPair
	derived    *xc.PrivateKey
	pub        *xc.PublicKey
	pair       *xc.KeyPair
	err        error
	compressed bool
	analyzed   *xc.PublicKey
}

func (f *fakeEngine) CreateDsaSigner(kp *xc.KeyPair) xc.DsaSigner { f.gotDsa = kp; return f.dsa }
func (f *fakeEngine) CreateKeyGenerator() xc.KeyGenerator         { return f }
func (f *fakeEngine) CreateBlockCipher(s, r *xc.KeyPair) xc.BlockCipher {
	f.gotS, f.gotR = s, r
	return f.cipher
}
func (f *fakeEngine) CreateKeyAnalyzer() xc.KeyAnalyzer              { return f }
func (f *fakeEngine) GenerateKeyPair() (*xc.KeyPair, error)          { return f.pair, f.err }
func (f *fakeEngine) DerivePublicKey(k *xc.PrivateKey) *xc.PublicKey { f.derived = k; return f.pub }
func (f *fakeEngine) IsKeyCompressed(k *xc.PublicKey) bool           { f.analyzed = k; return f.compressed }

type wrapCase struct {
	Msg      Blob
	Ok, Fail bool
	Priv     Hex
}

func checkK04wrap(c wrapCase, rec *Rec) error {
	rec.NT()
	msg := c.Msg.Bytes()
	fd := &fakeDsa{ok: c.Ok}
	if c.Fail {
		fd.err = errors.New("refused")
	} else {
		fd.sig = sigOf(make([]byte, 32), make([]byte, 32))
	}
	fe := &fakeEngine{dsa: fd, cipher: &fakeCipher{}, compressed: c.Ok}
	kp := mustPair(c.Priv, nil, 0)
	kq := mustPair(nil, ref.Pub(make([]byte, 32)), 0)
	for i, s := range []*xc.Signer{xc.NewSigner(fd), xc.NewSignerFromKeyPair(kp, fe)} {
		*fd = fakeDsa{ok: fd.ok, sig: fd.sig, err: fd.err}
		given := sigOf(msg, msg) // any value is passed through
		sig, err := s.Sign(msg)
		ok := s.Verify(msg, given)
		is := s.IsCanonicalSignature(given)
		mk, merr := s.MakeSignatureCanonical(given)
		if sig != fd.sig || err != fd.err || ok != c.Ok || is != c.Ok || mk != fd.sig || merr != fd.err {
			return fmt.Errorf("signer %d changes results: %v %v %v %v %v %v", i, sig, err, ok, is, mk, merr)
		}
		if strings.Join(fd.calls, " ") != "sign verify is make" {
			return fmt.Errorf("signer %d makes calls %v", i, fd.calls)
		}
		if !bytes.Equal(fd.mess[0], msg) || !bytes.Equal(fd.mess[1], msg) || fd.sigs[1] != given || fd.sigs[2] != given || fd.sigs[3] != given {
			return fmt.Errorf("signer %d changes arguments", i)
		}
	}
	if fe.gotDsa != kp {
		return fmt.Errorf("engine got another pair for the signer")
	}
	if bc := xc.NewBlockCipher(kp, kq, fe); bc != xc.BlockCipher(fe.cipher) || fe.gotS != kp || fe.gotR != kq {
		return fmt.Errorf("NewBlockCipher does not pass on sender and recipient")
	}
	// key pairs through the engine given
	fe.pub = xc.NewPublicKey(expand(9, 32))
	sk := xc.NewPrivateKey(dup(c.Priv))
	p, err := xc.NewKeyPair(sk, nil, fe)
	if err != nil || p.PublicKey != fe.pub || fe.derived != sk || p.PrivateKey != sk {
		return fmt.Errorf("NewKeyPair does not derive through the engine given: %v", err)
	}
	given := xc.NewPublicKey(expand(10, 32))
	p, err = xc.NewKeyPair(sk, given, fe)
	if fe.analyzed != given {
		return fmt.Errorf("the analyser of the engine was not asked")
	}
	if c.Ok && (err != nil || p.PublicKey != given || p.PrivateKey != sk) || !c.Ok && (err == nil || p != nil) {
		return fmt.Errorf("NewKeyPair ignores the key analyser: %v %v", p, err)
	}
	if c.Fail {
		fe.err = io.ErrUnexpectedEOF
	} else {
		fe.pair = kp
	}
	if p, err := xc.NewKeyPairByEngine(fe); p != fe.pair || err != fe.err {
		return fmt.Errorf("NewKeyPairByEngine gives %v %v", p, err)
	}
	// analyser of the real engine
	if got := xc.CryptoEngines.Ed25519Engine.CreateKeyAnalyzer().IsKeyCompressed(xc.NewPublicKey(msg)); got != (len(msg) == 32) {
		return fmt.Errorf("IsKeyCompressed(%d bytes) = %v", len(msg), got)
	}
	return nil
}

// engines are interchangeable
func checkK04engines(c pubOnlyCase, rec *Rec) error {
	rec.NT()
	msg := c.Msg.Bytes()
	var sigs, cts [][]byte
	for e := 0; e < 3; e++ {
		kp := mustPair(c.Priv, nil, e)
		ko := mustPair(c.Other, nil, e)
		if err := same("public key", kp.PublicKey.Raw, ref.Pub(c.Priv)); err != nil {
			return err
		}
		sig, err := xc.NewSignerFromKeyPair(kp, engineOf(e)).Sign(msg)
		if err != nil {
			return err
		}
		sigs = append(sigs, sig.Bytes())
		var ct []byte
		withRand(Source{Seed: uint64(c.How), End: -1}.reader(), func() { ct, err = xc.NewBlockCipher(kp, ko, engineOf(e)).Encrypt(msg) })
		if err != nil {
			return err
		}
		cts = append(cts, ct)
	}
	for e := 0; e < 3; e++ {
		if err := first(same("signature by another engine", sigs[e], sigs[0]), same("ciphertext by another engine", cts[e], cts[0])); err != nil {
			return err
		}
		if !xc.NewSignerFromKeyPair(mustPair(nil, ref.Pub(c.Priv), e), engineOf(e)).Verify(msg, sigOf(sigs[(e+1)%3][:32], sigs[(e+1)%3][32:])) {
			return fmt.Errorf("engine %d refuses the signature of engine %d", e, (e+1)%3)
		}
		pt, err := xc.NewBlockCipher(mustPair(nil, ref.Pub(c.Priv), 0), mustPair(c.Other, nil, 0), engineOf(e)).Decrypt(cts[(e+1)%3])
		if err != nil {
			return err
		}
		if err := same("decrypted by another engine", pt, msg); err != nil {
			return err
		}
	}
	return nil
}

// cipherOf builds a cipher in one of the available ways; rnd nil is the system source.
func cipherOf(s, r *xc.KeyPair, rnd io.Reader, how int) xc.BlockCipher {
	if rnd != nil {
		return xc.NewEd25519BlockCipher(s, r, rnd)
	}
	switch how % 5 {
	case 0:
		return xc.NewBlockCipher(s, r, nil)
	case 1:
		return xc.NewBlockCipher(s, r, xc.CryptoEngines.DefaultEngine)
	case 2:
		return xc.NewBlockCipher(s, r, xc.CryptoEngines.Ed25519Engine)
	case 3:
		return xc.NewEd25519BlockCipher(s, r, nil)
	}
	return xc.CryptoEngines.Ed25519Engine.CreateBlockCipher(s, r)
}

func init() {
	zero := Hex(make([]byte, 32))
	genPubOnly := func(max int) func(t *rapid.T) pubOnlyCase {
		return func(t *rapid.T) pubOnlyCase {
			return pubOnlyCase{genPriv(t), genPriv(t), genBlobUp(t, max), rapid.IntRange(0, 60).Draw(t, "how")}
		}
	}
	register(&Prop{ID: "K01", Facets: []*Facet{
		refilled(20000, 600000, false, "key"),
		F("public-key", "the private key is not zero", 100000, 4000000, genPrivCase, checkK01, privCase{zero, 0}, privCase{zero, 4}),
		F("scalar", "every case", 60000, 1000000, genPrivCase, checkK01scalar),
		many(4, 80, 6000, manyDerive),
	}})
	register(&Prop{ID: "K02", Facets: []*Facet{
		afterFailures(400, 20000, "generate"),
		F("generation", "the source splits its reads or ends", 40000, 1000000, genGen, checkK02,
			genCase{Source{End: 0, Mode: "eof"}, 1, []int{0}}, genCase{Source{End: 31, Mode: "err"}, 1, []int{0}}, genCase{Source{End: 32, Mode: "errwith"}, 2, []int{0, 0}}),
		F("standard-sources", "every case: sources of the types of the standard library", 30000, 800000, genStd(32, false), checkK02std),
		many(4, 80, 6000, manyGenerate),
	}, Assumptions: []string{"crypto/rand.Reader stands for the system randomness source and is replaced during a case"}})
	register(&Prop{ID: "K03", Facets: []*Facet{
		afterFailures(400, 20000, "parse"),
		refilled(20000, 600000, false, "key"),
		F("round-trips", "a leading zero byte, or upper-case letters", 50000, 1000000, genRepr, checkK03, reprCase{zero, 0, 0}),
		F("reshaped", "every case", 60000, 1500000, func(t *rapid.T) shapeKeyCase { return shapeKeyCase{genBytes32(t), genForms(t)} }, func(c shapeKeyCase, rec *Rec) error {
			// the text of a key after changes of its bytes or of the text
			if s := string(reshape([]byte(hex.EncodeToString(c.Key)), c.Form)); len(s) < 1000 {
				if err := checkK03hex(hexCase{s}, rec); err != nil {
					return err
				}
			}
			if b := reshape(c.Key, c.Form); len(b) < 500 {
				return checkK03hex(hexCase{hex.EncodeToString(b)}, rec)
			}
			return nil
		}),
		F("hex-strings", "every case: strings of any length with and without bad characters", 80000, 2000000, genHexStr, checkK03hex, hexCase{""}, hexCase{"0"}),
	}})
	register(&Prop{ID: "K04", Facets: []*Facet{
		afterFailures(400, 20000, "no-private-key"),
		F("pairs", "every case", 20000, 500000, func(t *rapid.T) pairCase {
			c := pairCase{Has: rapid.IntRange(0, 3).Draw(t, "has") > 0, Eng: rapid.IntRange(0, 2).Draw(t, "eng")}
			if c.Has {
				c.Priv = genPriv(t)
			}
			if !c.Has || rapid.Bool().Draw(t, "given") {
				c.Pub = genPubBytes(t)
				if rapid.IntRange(0, 2).Draw(t, "resize") == 0 {
					c.Pub = append(c.Pub, expand(3, 64)...)[:rapid.IntRange(0, 96).Draw(t, "n")]
				}
			}
			return c
		}, checkK04pair),
		F("public-only", "every case", 2000, 80000, genPubOnly(300), checkK04pubOnly),
		F("engines", "every case", 800, 50000, genPubOnly(300), checkK04engines),
		F("wrappers", "every case", 10000, 200000, func(t *rapid.T) wrapCase {
			return wrapCase{genBlob(t, 70), rapid.Bool().Draw(t, "ok"), rapid.Bool().Draw(t, "fail"), genPriv(t)}
		}, checkK04wrap),
	}})
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"slices"
	"strings"
	"sync"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- worlds: the values that histories and concurrent programs work on ----------

type SigR struct{ Key, Msg, Mut, Pos int }
type CtR struct {
	A, B, Msg, Mut, Pos int
	Seed                uint64
}

type World struct {
	Keys  []Hex
	Msgs  []Blob
	Pubs  []Hex // further public keys, hostile ones among them
	Sigs  []SigR
	Cts   []CtR
	Salts []Hex
	Encs  []Hex
	Ks    []Hex // scalars below 2^253
	Pts   []Pt
	Reps  []Rep
	Src   Source
}

// Op is one operation; the meaning of the indices depends on the kind.
type Op struct {
	K          string
	A, B, C, D int
}

// vary gives something close to b: the same in most places, or the same up to order, sum or exclusive or.
func vary(t *rapid.T, b []byte) []byte {
	r := dup(b)
	n := len(r)
	if n == 0 {
		return r
	}
	i := rapid.IntRange(0, n-1).Draw(t, "varpos")
	j := rapid.IntRange(0, n-1).Draw(t, "varpos2")
	bit := byte(1) << rapid.IntRange(0, 7).Draw(t, "varbit")
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0: // two bytes change places
		r[i], r[j] = r[j], r[i]
	case 1: // two words change places
		for _, w := range []int{16, 8, 4, 2} {
			if n < 2*w {
				continue
			}
			x, y := i%(n/w)*w, j%(n/w)*w
			if !bytes.Equal(r[x:x+w], r[y:y+w]) {
				copy(r[x:x+w], b[y:y+w])
				copy(r[y:y+w], b[x:x+w])
				break
			}
		}
	case 2: // the other way round
		slices.Reverse(r)
	case 3: // the same exclusive or
		if r[i] ^= bit; i != j {
			r[j] ^= bit
		}
	case 4: // the same sum
		if r[i] += bit; i != j {
			r[j] -= bit
		}
	case 5: // another end
		copy(r[i:], expand(uint64(bit)<<8+uint64(j), n))
	case 6: // another start
		copy(r[:i+1], expand(uint64(bit)<<8+uint64(j), n))
	default:
		r[i] ^= bit
	}
	return r
}

func genWorld(t *rapid.T, hostile bool) World {
	var w World
	n := rapid.IntRange(1, 3).Draw(t, "nkeys")
	for i := 0; i < n; i++ {
		k := genPriv(t)
		if i > 0 && rapid.Bool().Draw(t, "related") { // related to the one before
			k = vary(t, w.Keys[i-1])
		}
		w.Keys = append(w.Keys, k)
	}
	n = rapid.IntRange(1, 4).Draw(t, "nmsgs")
	for i := 0; i < n; i++ {
		b := genBlob(t, 300)
		if rapid.IntRange(0, 59).Draw(t, "up") == 59 {
			b = genBlobN(t, genLong(t, 300, 20000))
		}
		if i > 0 {
			p := w.Msgs[i-1]
			switch rapid.IntRange(0, 4).Draw(t, "related") {
			case 2: // two bytes differ, with the same exclusive or
				if p.Len > 0 && len(p.Edit) == 0 {
					b = p
					l := p.Bytes()
					x, y, v := rapid.IntRange(0, p.Len-1).Draw(t, "pos"), rapid.IntRange(0, p.Len-1).Draw(t, "pos2"), rapid.Byte().Draw(t, "val")
					b.Edit = []Edit{{x, l[x] ^ v}}
					if x != y {
						b.Edit = append(b.Edit, Edit{y, l[y] ^ v})
					}
				}
			case 0: // one byte differs
				b = p
				b.Edit = append(append([]Edit{}, p.Edit...), Edit{rapid.IntRange(0, max(0, p.Len-1)).Draw(t, "pos"), rapid.Byte().Draw(t, "val")})
			case 1: // longer or shorter
				b = p
				b.Edit = nil
				b.Len = max(0, p.Len+rapid.IntRange(-20, 20).Draw(t, "grow"))
			}
		}
		w.Msgs = append(w.Msgs, b)
	}
	for i := 0; i < 2; i++ {
		if hostile {
			w.Pubs = append(w.Pubs, genPubBytes(t))
		} else {
			w.Pubs = append(w.Pubs, genPt(t).Point().Bytes())
		}
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "related") == 0 {
			w.Pubs[i] = vary(t, w.Pubs[i-1])
		}
	}
	idx := func() int { return rapid.IntRange(0, 11).Draw(t, "i") }
	mut := func(n int) int {
		if rapid.IntRange(0, 2).Draw(t, "bad") > 0 {
			return 0
		}
		return rapid.IntRange(1, n).Draw(t, "mut")
	}
	n = rapid.IntRange(1, 3).Draw(t, "nsigs")
	for i := 0; i < n; i++ {
		w.Sigs = append(w.Sigs, SigR{idx(), idx(), mut(6), rapid.IntRange(0, 255).Draw(t, "pos")})
	}
	n = rapid.IntRange(1, 3).Draw(t, "ncts")
	for i := 0; i < n; i++ {
		w.Cts = append(w.Cts, CtR{idx(), idx(), idx(), mut(6), rapid.IntRange(0, 4095).Draw(t, "pos"), rapid.Uint64().Draw(t, "seed")})
	}
	w.Salts = []Hex{genBytes32(t)}
	w.Salts = append(w.Salts, vary(t, w.Salts[0]))
	for i := 0; i < 2; i++ {
		w.Encs = append(w.Encs, genEncPt(t).B)
		w.Ks = append(w.Ks, leB(genInt(t, 253), 32))
	}
	if rapid.IntRange(0, 2).Draw(t, "related") == 0 {
		w.Encs[1] = vary(t, w.Encs[0])
	}
	n = rapid.IntRange(1, 3).Draw(t, "npts")
	for i := 0; i < n; i++ {
		w.Pts = append(w.Pts, genPt(t))
		w.Reps = append(w.Reps, genRep(t))
	}
	switch rapid.IntRange(0, 15).Draw(t, "crossed") { // a value in another role
	case 1: // a message that is a key
		w.Msgs[len(w.Msgs)-1] = literal(w.Keys[len(w.Keys)-1])
	case 2:
		w.Msgs[len(w.Msgs)-1] = literal(ref.Pub(w.Keys[0]))
	case 3:
		w.Salts[0] = w.Keys[0]
	case 4:
		w.Salts[1] = ref.Pub(w.Keys[len(w.Keys)-1])
	case 5:
		w.Encs[0] = ref.Pub(w.Keys[0])
	case 6:
		w.Encs[1] = w.Keys[0]
	case 7: // a public key that is a private one, or the other way round
		if hostile {
			w.Pubs[0] = w.Keys[0]
		}
	case 8:
		w.Keys[len(w.Keys)-1] = ref.Pub(w.Keys[0])
	case 9:
		w.Msgs[0] = literal(w.Pubs[0])
	}
	w.Src = genSource(t)
	if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
		w.Src.End = rapid.IntRange(0, 200).Draw(t, "end")
		w.Src.Mode = rapid.SampledFrom([]string{"eof", "err"}).Draw(t, "mode")
		w.Src.Heal = rapid.IntRange(0, 3).Draw(t, "heal") > 0
	}
	return w
}

// pool holds the shared objects of a world.
type pool struct {
	w       World
	alloc   func([]byte) []byte
	pubs    [][]byte // public keys of Keys, then Pubs
	privB   [][]byte
	pubB    [][]byte
	model   [][]byte // current content of the message buffers
	msgs    [][]byte
	sigM    [][]byte // content of the signature buffers, 64 bytes
	sigB    [][]byte
	ctM     [][]byte
	ctB     [][]byte
	saltB   [][]byte
	encB    [][]byte
	kB      [][]byte
	pairs   []*xc.KeyPair // full
	pubOnly []*xc.KeyPair
	signers [][]dsa
	vers    [][]dsa
	sgKey   [][2]int // key that a signer holds
	vrKey   [][2]int
	encs    []xc.BlockCipher // index A*len(pubs)+B, system source
	srcEncs []xc.BlockCipher // same with the world's source
	decs    []xc.BlockCipher // index B*len(keys)+A: sender Pubs[B], recipient Keys[A]
	shs     *xc.Ed25519BlockCipher
	sigs    []*xc.Signature
	pts     []*xc.Ed25519GroupElement
	rd      *srcReader
	gen     xc.KeyGenerator
	sysGen  xc.KeyGenerator
}

func (w World) sigBytes(s SigR, pubs [][]byte, msgs [][]byte) []byte {
	k := s.Key % len(w.Keys)
	sig := ref.Sign(w.Keys[k], pubs[k], msgs[s.Msg%len(msgs)])
	switch s.Mut {
	case 1:
		sig[s.Pos/8%32] ^= 1 << (s.Pos % 8)
	case 2:
		sig[32+s.Pos/8%32] ^= 1 << (s.Pos % 8)
	case 3:
		v := ref.LE(sig[32:])
		copy(sig[32:], ref.ToLE(v.Add(v, ref.L), 32))
	case 4:
		clear(sig[32:])
	case 5:
		copy(sig, expand(uint64(s.Pos), 64))
	case 6:
		for i := range sig {
			sig[i] = 0xff
		}
	}
	return sig
}

func (w World) ctBytes(c CtR, pubs [][]byte, msgs [][]byte) []byte {
	a, b := c.A%len(w.Keys), c.B%len(w.Keys)
	r := expand(c.Seed, 48)
	ct, err := ref.Encrypt(w.Keys[a], pubs[b], r[:32], r[32:], msgs[c.Msg%len(msgs)])
	must(err)
	switch c.Mut {
	case 1:
		ct[48+c.Pos%(len(ct)-48)] ^= 1 << (c.Pos % 8)
	case 2:
		ct = ct[:c.Pos%(len(ct)+1)]
	case 3:
		ct[c.Pos%32] ^= 1 << (c.Pos / 32 % 8)
	case 4:
		ct[32+c.Pos%16] ^= 1 << (c.Pos / 16 % 8)
	case 5:
		ct = append(ct, expand(c.Seed+1, 16*(1+c.Pos%3))...)
	case 6:
		ct[len(ct)-1-c.Pos%16] ^= 1 << (c.Pos / 16 % 8)
	}
	return ct
}

func newPool(w World, alloc func([]byte) []byte) *pool {
	p := &pool{w: w, alloc: alloc}
	p.w.Keys = append([]Hex{}, w.Keys...) // changes with rekey
	w = p.w
	for _, k := range w.Keys {
		p.pubs = append(p.pubs, ref.Pub(k))
	}
	for _, k := range w.Pubs {
		p.pubs = append(p.pubs, k)
	}
	for _, b := range w.Msgs {
		p.model = append(p.model, b.Bytes())
		p.msgs = append(p.msgs, alloc(b.Bytes()))
	}
	for _, k := range w.Keys {
		p.privB = append(p.privB, alloc(k))
	}
	for _, k := range p.pubs {
		p.pubB = append(p.pubB, alloc(k))
	}
	for i, s := range w.Sigs {
		b := w.sigBytes(s, p.pubs, p.model)
		p.sigM = append(p.sigM, b)
		buf := alloc(b)
		p.sigB = append(p.sigB, buf)
		if i%2 == 0 { // parts in the one buffer
			p.sigs = append(p.sigs, &xc.Signature{R: buf[:32], S: buf[32:64]})
		} else {
			s := alloc(b[32:])
			p.sigs = append(p.sigs, &xc.Signature{R: alloc(b[:32]), S: s})
		}
	}
	for _, c := range w.Cts {
		b := w.ctBytes(c, p.pubs, p.model)
		p.ctM = append(p.ctM, b)
		p.ctB = append(p.ctB, alloc(b))
	}
	for _, s := range w.Salts {
		p.saltB = append(p.saltB, alloc(s))
	}
	for _, s := range w.Encs {
		p.encB = append(p.encB, alloc(s))
	}
	for _, s := range w.Ks {
		p.kB = append(p.kB, alloc(s))
	}
	pair := func(priv, pub []byte, eng int) *xc.KeyPair {
		var sk *xc.PrivateKey
		if priv != nil {
			sk = xc.NewPrivateKey(priv)
		}
		kp, err := xc.NewKeyPair(sk, xc.NewPublicKey(pub), engineOf(eng))
		if err != nil {
			panic(err)
		}
		return kp
	}
	for i := range w.Keys {
		kp := pair(p.privB[i], p.pubB[i], i)
		p.pairs = append(p.pairs, kp)
		p.signers = append(p.signers, []dsa{signerOf(kp, i), signerOf(kp, 3)})
		p.sgKey = append(p.sgKey, [2]int{i, i})
	}
	for i := range p.pubs {
		kp := pair(nil, p.pubB[i], i)
		p.pubOnly = append(p.pubOnly, kp)
		p.vers = append(p.vers, []dsa{signerOf(kp, i+1), signerOf(kp, 3)})
		p.vrKey = append(p.vrKey, [2]int{i, i})
	}
	p.rd = w.Src.reader()
	for a := range w.Keys {
		for b := range p.pubs {
			p.encs = append(p.encs, cipherOf(p.pairs[a], p.pubOnly[b], nil, a+b))
			p.srcEncs = append(p.srcEncs, xc.NewEd25519BlockCipher(p.pairs[a], p.pubOnly[b], p.rd))
			p.decs = append(p.decs, cipherOf(p.pubOnly[b], p.pairs[a], nil, a+b+1))
		}
	}
	p.shs = xc.NewEd25519BlockCipher(p.pairs[0], p.pubOnly[0], nil)
	p.gen = xc.NewEd25519KeyGenerator(p.rd)
	p.sysGen = xc.CryptoEngines.Ed25519Engine.CreateKeyGenerator()
	for i := range w.Pts {
		p.pts = append(p.pts, w.Reps[i].hold(ref.AffOf(w.Pts[i].Point()), xc.P3))
	}
	return p
}

// resolve gives the input values of an operation and the shared objects it runs on.
func (p *pool) resolve(op Op) (*Args, *objs) {
	w := &p.w
	nk, np := len(w.Keys), len(p.pubs)
	a := &Args{Kind: op.K, How: op.D, N: op.C}
	o := &objs{}
	key := op.A % nk
	setMsg := func(i int) {
		i %= len(p.msgs)
		a.Msg, o.msg = dup(p.model[i]), p.msgs[i]
	}
	switch op.K {
	case "sign":
		o.signer = p.signers[key][op.C%2]
		held := p.sgKey[key][op.C%2]
		a.Priv, a.Pub, o.kp = w.Keys[held], p.pubs[held], p.pairs[held]
		setMsg(op.B)
	case "strings":
		a.Priv, a.Pub = w.Keys[key], p.pubs[key]
		o.kp = p.pairs[key]
	case "verify", "canon", "sigform":
		i := op.B % len(w.Sigs)
		m, k := op.C, op.A%np
		if op.D%4 != 0 { // the message and key it was made for
			m, k = w.Sigs[i].Msg, w.Sigs[i].Key%nk
		}
		setMsg(m)
		if op.D%4 == 2 { // a verifier that holds that key by now
			for j := range p.vrKey {
				if p.vrKey[j][op.C%2] == k {
					k = j
					break
				}
			}
		}
		held := p.vrKey[k][op.C%2]
		a.Pub = p.pubs[held]
		a.R, a.S = dup(p.sigM[i][:32]), dup(p.sigM[i][32:])
		o.ver, o.sig = p.vers[k][op.C%2], p.sigs[i]
		if op.D%4 == 1 && held < nk { // a new signature for the key it holds
			sig := ref.Sign(w.Keys[held], p.pubs[held], a.Msg)
			a.R, a.S = sig[:32], sig[32:]
			o.sig = sigOf(a.R, a.S)
		}
	case "parse":
		i := op.B % len(w.Sigs)
		a.In, o.in = dup(p.sigM[i]), p.sigB[i]
	case "frombig":
		i := op.B % len(w.Sigs)
		a.E1, a.E2 = dup(p.sigM[i][:32]), dup(p.sigM[i][32:])
	case "encrypt":
		b := op.B % np
		a.Priv, a.Pub2 = w.Keys[key], p.pubs[b]
		a.Rnd, a.Mode = p.rd.avail(48), w.Src.Mode
		o.enc = p.srcEncs[key*np+b]
		setMsg(op.C)
	case "genkey":
		a.Rnd, a.Mode = p.rd.avail(32), w.Src.Mode
		o.gen = p.gen
	case "decrypt":
		i := op.C % len(w.Cts)
		s := op.B % np
		if op.D%4 != 0 {
			s, key = w.Cts[i].A%nk, w.Cts[i].B%nk
		}
		a.Priv, a.Pub2 = w.Keys[key], p.pubs[s]
		a.In, o.in = dup(p.ctM[i]), p.ctB[i]
		o.dec = p.decs[key*np+s]
	case "shared":
		b := op.B % np
		a.Priv, a.Pub2 = w.Keys[key], p.pubs[b]
		i := op.C % len(w.Salts)
		a.Salt, o.salt = w.Salts[i], p.saltB[i]
		o.sh, o.priv, o.pub = p.shs, p.pairs[key].PrivateKey, p.pubOnly[b].PublicKey
	case "derive", "clamp":
		a.Priv = w.Keys[key]
		o.priv = p.pairs[key].PrivateKey
	case "hash":
		setMsg(op.A)
		a.Msg2, o.msg2 = a.Msg, o.msg
		setMsg(op.B)
	case "decode", "math", "field":
		e1, e2 := op.A%len(w.Encs), op.B%len(w.Encs)
		a.E1, a.E2 = w.Encs[e1], w.Encs[e2]
		o.e1, o.e2 = p.encB[e1], p.encB[e2]
	case "scalar":
		i := op.B % len(w.Sigs)
		a.In, o.in = dup(p.sigM[i]), p.sigB[i]
	case "encode", "equal", "select", "mul", "dmul", "prec":
		i, j := op.A%len(w.Pts), op.B%len(w.Pts)
		a.P, a.Rp, a.Q, a.Rq = w.Pts[i], w.Reps[i], w.Pts[j], w.Reps[j]
		o.p, o.q = p.pts[i], p.pts[j]
		a.K1, o.k1 = w.Ks[op.C%2], p.kB[op.C%2]
		a.K2, o.k2 = w.Ks[op.D%2], p.kB[op.D%2]
		if op.K == "mul" && xc.VX.GMul == nil || op.K == "dmul" && xc.VX.GDoubleMul == nil {
			a.Kind = "encode"
		}
	}
	return a, o
}

// rekey changes a key that objects of the pool hold, as their exported fields allow.
func (p *pool) rekey(op Op, rec *Rec) {
	nk, np := len(p.w.Keys), len(p.pubs)
	switch op.D % 4 {
	case 0: // a signer is given another pair
		k := op.A % nk
		if s, ok := p.signers[k][op.C%2].(*xc.Ed25519DsaSigner); ok {
			s.KeyPair = p.pairs[op.B%nk]
			p.sgKey[k][op.C%2] = op.B % nk
			rec.Class("signer with another pair")
		}
	case 1:
		k := op.A % np
		if s, ok := p.vers[k][op.C%2].(*xc.Ed25519DsaSigner); ok {
			s.KeyPair = p.pubOnly[op.B%np]
			p.vrKey[k][op.C%2] = op.B % np
			rec.Class("verifier with another pair")
		}
	default: // a pair is given other keys, as new objects or in place
		k := op.A % np
		if op.D == 7 && len(p.pubs[k]) > 0 { // one bit of the public key alone, in place
			b := dup(p.pubs[k])
			b[op.C%len(b)] ^= 1 << op.B
			copy(p.pubOnly[k].PublicKey.Raw, b)
			if k < nk {
				copy(p.pairs[k].PublicKey.Raw, b)
			}
			p.pubs[k] = b
			rec.Class("one bit of the public key changed")
			return
		}
		pub := expand(uint64(op.C), 32)
		if op.B%3 == 0 {
			pub = dup(p.pubs[op.B/3%np])
		}
		if k < nk {
			priv := expand(uint64(op.C)+1000, 32)
			pub = ref.Pub(priv)
			if op.D%4 == 2 {
				p.pairs[k].PrivateKey, p.pairs[k].PublicKey = xc.NewPrivateKey(dup(priv)), xc.NewPublicKey(dup(pub))
			} else {
				copy(p.pairs[k].PrivateKey.Raw, priv)
				copy(p.pairs[k].PublicKey.Raw, pub)
			}
			p.w.Keys[k] = priv
		}
		if op.D%4 == 2 || len(p.pubOnly[k].PublicKey.Raw) != len(pub) {
			p.pubOnly[k].PublicKey = xc.NewPublicKey(dup(pub))
		} else {
			copy(p.pubOnly[k].PublicKey.Raw, pub)
		}
		p.pubs[k] = pub
		rec.Class("pair with other keys")
	}
}

// avail gives up to n bytes that the source delivers before it fails next.
func (r *srcReader) avail(n int) []byte {
	if r.s.End >= 0 && !(r.s.Heal && r.failed) {
		if left := max(0, r.s.End-r.pos); left < n {
			n = left
		}
	}
	return r.at(r.pos, n)
}

func genOps(t *rapid.T, kinds []string, min, max int) []Op {
	n := rapid.IntRange(min, max).Draw(t, "nops")
	var ops []Op
	for i := 0; i < n; i++ {
		x := func() int { return rapid.IntRange(0, 7).Draw(t, "x") }
		k := mix(rapid.Uint32().Draw(t, "op")) // all kinds equally often
		op := Op{kinds[k.next()%uint64(len(kinds))], x(), x(), rapid.IntRange(0, 543).Draw(t, "c"), x()}
		ops = append(ops, op)
	}
	return ops
}

// ---------- published constants ----------

func constLimbs() string {
	b := xc.Ed25519Group.BASE_POINT()
	return fmt.Sprint(limbsOfPoint(b), b.GetCoordinateSystem(), limbsOfPoint(xc.Ed25519Group.ZERO_P2()), limbsOfPoint(xc.Ed25519Group.ZERO_P3()), limbsOfPoint(xc.Ed25519Group.ZERO_PRECOMPUTED()))
}

// constants compares the published constants with independent values.
func constants() error {
	f := &xc.Ed25519Field
	d2 := modP(new(big.Int).Add(ref.D, ref.D))
	b := ref.AffOf(ref.BasePoint)
	zero := ref.Aff{X: new(big.Int), Y: bi(1)}
	g := xc.Ed25519Group
	return first(
		eqInt("Ed25519Field.P", f.P, ref.P), eqInt("Ed25519FieldP", xc.Ed25519FieldP(), ref.P),
		eqVal("ZERO", f.ZERO.Raw, new(big.Int)), eqVal("ONE", f.ONE.Raw, bi(1)), eqVal("TWO", f.TWO.Raw, bi(2)),
		eqVal("D", f.D.Raw, ref.D), eqVal("DTimesTWO", f.DTimesTWO.Raw, d2), eqVal("I", f.I.Raw, ref.SqrtM1),
		eqVal("Ed25519FieldZero", xc.Ed25519FieldZero().Raw, new(big.Int)), eqVal("Ed25519FieldOne", xc.Ed25519FieldOne().Raw, bi(1)),
		eqVal("Ed25519FieldTWO", xc.Ed25519FieldTWO().Raw, bi(2)), eqVal("Ed25519FieldD", xc.Ed25519FieldD().Raw, ref.D), eqVal("Ed25519FieldDTimesTwo", xc.Ed25519FieldDTimesTwo().Raw, d2),
		same("Ed25519FieldZeroShort", xc.Ed25519FieldZeroShort(), make([]byte, 32)), same("Ed25519FieldZeroLong", xc.Ed25519FieldZeroLong(), make([]byte, 64)),
		eqInt("GROUP_ORDER", g.GROUP_ORDER, ref.L),
		eqAff("base point", g.BASE_POINT(), xc.P3, b), eqAff("ZERO_P2", g.ZERO_P2(), xc.P2, zero), eqAff("ZERO_P3", g.ZERO_P3(), xc.P3, zero), eqAff("ZERO_PRECOMPUTED", g.ZERO_PRECOMPUTED(), xc.PRECOMPUTED, zero))
}

// baseTables looks up entries of the tables of the base point: n entries of the
// single one from a seed, and the double one through a multiplication.
func baseTables(seed uint64, n int) error {
	m := mix(seed)
	g := xc.Ed25519Group.BASE_POINT()
	for i := 0; i < n; i++ {
		pos, d := int(m.next()%32), int(m.next()%17)-8
		k := new(big.Int).Lsh(ref.One, uint(8*pos))
		k.Mul(k, bi(int64(d))).Mod(k, ref.L)
		r, err := g.Select(pos, d)
		if err != nil {
			return err
		}
		if err := eqAff(fmt.Sprintf("base point lookup (%d, %d)", pos, d), r, xc.PRECOMPUTED, ref.AffOf(ref.MulBase(k))); err != nil {
			return err
		}
	}
	if xc.VX.GDoubleMul == nil {
		return nil
	}
	q := xc.Ed25519Group.ZERO_P3()
	q.PrecomputeForDoubleScalarMultiplication()
	k := ref.ModL(expand(m.next(), 32))
	r, err := xc.VX.GDoubleMul(g, q, encF(make([]byte, 32)), encF(ref.ToLE(k, 32)))
	if err != nil {
		return err
	}
	return eqAff("multiple of the base point by its second table", r, xc.P2, ref.AffOf(ref.MulBase(k)))
}

// ---------- X01 ----------

type frozenCase struct {
	W     World
	Arena uint64
	Ops   []Op
}

var x01Kinds = []string{"sign", "verify", "canon", "canon", "sigform", "sigform", "parse", "parse", "frombig", "encrypt", "encrypt", "decrypt", "decrypt", "shared", "derive", "hash", "hash", "strings", "clamp", "decode", "encode", "equal", "select", "scalar", "math", "field", "mul", "dmul", "prec", "genkey"}

type watch struct {
	name string
	get  func() []byte
	snap []byte
}

// arena places byte strings next to each other in one buffer, often with spare
// capacity that reaches into what follows.
type arena struct {
	buf []byte
	off int
	m   mix
}

func newArena(seed uint64, w World) *arena {
	n := 16384
	for _, m := range w.Msgs {
		n += m.Len * (1 + len(w.Cts))
	}
	return &arena{buf: expand(seed, n), m: mix(seed)}
}

func (a *arena) alloc(b []byte) []byte {
	if a.m.next()%2 == 0 {
		a.off += int(a.m.next() % 40)
	}
	from, to := a.off, a.off+len(b)
	if to > len(a.buf) {
		panic(harnessError("arena"))
	}
	copy(a.buf[from:to], b)
	a.off = to
	switch a.m.next() % 4 {
	case 0:
		return a.buf[from:to:to]
	case 1:
		return a.buf[from:to:min(len(a.buf), to+int(a.m.next()%70))]
	}
	return a.buf[from:to]
}

var constBad bool // the constants were changed in this process, by an earlier case

func checkX01(c frozenCase, rec *Rec) error {
	if constBad {
		return nil
	}
	ar := newArena(c.Arena, c.W)
	p := newPool(c.W, ar.alloc)
	for i := range p.msgs { // some messages share memory with other values
		if ar.m.next()%5 == 0 {
			from := int(ar.m.next() % uint64(ar.off+1))
			p.msgs[i] = ar.buf[from:min(ar.off, from+int(ar.m.next()%100))]
		}
	}
	var ws []*watch
	add := func(name string, get func() []byte) {
		ws = append(ws, &watch{name, get, dup(get())})
	}
	add("the memory of the arguments", func() []byte { return ar.buf })
	sigObjs := append([]*xc.Signature{}, p.sigs...)
	for i, s := range p.sigs {
		add(fmt.Sprintf("signature %d", i), func() []byte { return append(append(dup(s.R), 0x5a), s.S...) })
	}
	for i, kp := range append(append([]*xc.KeyPair{}, p.pairs...), p.pubOnly...) {
		add(fmt.Sprintf("key pair %d", i), func() []byte {
			b := dup(kp.PublicKey.Raw)
			if kp.PrivateKey != nil {
				b = append(append(b, 0x5a), kp.PrivateKey.Raw...)
			}
			return b
		})
	}
	for i, g := range p.pts {
		add(fmt.Sprintf("point %d", i), func() []byte {
			var b []byte
			for _, l := range limbsOfPoint(g) {
				for _, v := range l {
					b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40))
				}
			}
			return append(b, byte(g.GetCoordinateSystem()))
		})
	}
	limbs0 := constLimbs()
	kinds := map[string]bool{}
	for i, op := range c.Ops {
		a, o := p.resolve(op)
		kinds[a.Kind] = true
		if o.sig != nil && op.C%3 == 0 { // a signature that an operation returned
			o.sig = sigObjs[op.C/3%len(sigObjs)]
		}
		n := 0
		o.keep = func(name string, b []byte) {
			if n++; len(ws) < 60 {
				add(fmt.Sprintf("%s by operation %d (%s)", name, i, a.Kind), func() []byte { return b })
			}
		}
		o.keepInt = func(name string, v *big.Int) {
			if len(ws) < 60 {
				add(fmt.Sprintf("%s by operation %d (%s)", name, i, a.Kind), func() []byte { return []byte(v.String()) })
			}
		}
		o.keepSig = func(s *xc.Signature) {
			if len(sigObjs) < 12 {
				sigObjs = append(sigObjs, s)
			}
		}
		res := do(a, o)
		if len(res) > 6 && res[:6] == "panic:" {
			rec.Class("%s panics (a matter of other properties)", a.Kind)
		}
		for _, w := range ws {
			if now := w.get(); !bytes.Equal(now, w.snap) {
				at := 0
				for at < len(now) && at < len(w.snap) && now[at] == w.snap[at] {
					at++
				}
				return fmt.Errorf("operation %d (%s) changed %s at byte %d: %x, before %x", i, a.Kind, w.name, at, clipB(now[at:]), clipB(w.snap[at:]))
			}
		}
		if err := constants(); err != nil || constLimbs() != limbs0 {
			constBad = true
			return fmt.Errorf("after operation %d (%s) the published constants changed: %v", i, a.Kind, err)
		}
	}
	for k := range kinds {
		rec.Class("%s", k)
	}
	if len(kinds) > 1 {
		rec.NT()
	}
	if err := baseTables(c.Arena, 12); err != nil {
		constBad = true
		return fmt.Errorf("after the case: %v", err)
	}
	return nil
}

type tabCase struct{ Pos int }

// every entry of the base point tables, and the constants, before anything else ran
func checkX01const(c tabCase, rec *Rec) error {
	rec.NT()
	if err := constants(); err != nil {
		return err
	}
	base := ref.BasePoint
	g := xc.Ed25519Group.BASE_POINT()
	if err := checkTable(g, base, []int{c.Pos}); err != nil {
		return err
	}
	return baseTables(uint64(c.Pos), 1)
}

// the copy that BASE_POINT hands out may be used and precomputed freely
type useCase struct {
	Seed uint64
	How  []int
}

func checkX01base(c useCase, rec *Rec) error {
	if constBad {
		return nil
	}
	rec.NT()
	before := constLimbs()
	g := xc.Ed25519Group.BASE_POINT()
	pt := ref.BasePoint
	for _, h := range c.How {
		switch h {
		case 0:
			g.PrecomputeForScalarMultiplication()
		case 1:
			g.PrecomputeForDoubleScalarMultiplication()
		case 2:
			g.Encode()
		case 3:
			if xc.VX.GMul != nil {
				xc.VX.GMul(g, encF(leB(ref.LE(expand(c.Seed, 31)), 32)))
			}
		case 4:
			if xc.VX.GNeg != nil {
				if r, err := g.Select(int(c.Seed%32), -int(c.Seed%9)); err == nil {
					xc.VX.GNeg(r)
				}
			}
		case 5:
			g = xc.Ed25519Group.BASE_POINT()
		case 6:
			z := xc.Ed25519Group.ZERO_P3()
			z.PrecomputeForScalarMultiplication()
			z.PrecomputeForDoubleScalarMultiplication()
		case 7:
			xc.MathUtils.ScalarMultiplyGroupElement(g, fe(Limbs{int64(c.Seed % 100)}))
		}
	}
	if err := constants(); err != nil || constLimbs() != before {
		constBad = true
		return fmt.Errorf("the published constants changed: %v", err)
	}
	if err := eqAff("the point handed out", g, xc.P3, ref.AffOf(pt)); err != nil {
		return err
	}
	if err := baseTables(c.Seed, 10); err != nil {
		constBad = true
		return err
	}
	return nil
}

// ---------- X02 ----------

type historyCase struct {
	W   World
	Ops []Op
}

var x02Kinds = []string{"sign", "sign", "verify", "verify", "verify", "verify", "canon", "sigform", "parse", "encrypt", "encrypt", "decrypt", "decrypt", "decrypt", "shared", "shared", "derive", "derive", "hash", "strings", "clamp", "decode", "decode", "encode", "equal", "select", "scalar", "math", "field", "mul", "dmul", "prec", "genkey", "refill", "refill", "rekey", "rekey"}

// scribble collects the results of an operation that are the caller's own, to be
// written over afterwards.
type scribble struct {
	bs   [][]byte
	ints []*big.Int
}

func (s *scribble) on(o *objs) {
	o.keep = func(name string, b []byte) {
		// these may share memory with what was given
		if !strings.HasSuffix(name, "a parsed signature") && !strings.HasSuffix(name, "a signature made canonical") {
			s.bs = append(s.bs, b)
		}
	}
	o.keepInt = func(_ string, v *big.Int) { s.ints = append(s.ints, v) }
}

func (s *scribble) over() int {
	for i, b := range s.bs {
		overwrite(b, uint64(i))
	}
	for _, v := range s.ints {
		overwriteInt(v)
	}
	return len(s.bs) + len(s.ints)
}

// overwrite changes every byte of a result the caller owns.
func overwrite(b []byte, seed uint64) {
	for i, x := range expand(seed, len(b)) {
		b[i] ^= x | 1
	}
}

// overwriteInt changes an integer in place, as arithmetic on it may, its words included.
func overwriteInt(v *big.Int) {
	for i, w := range v.Bits() {
		v.Bits()[i] = ^w
	}
	v.Add(v, bi(7))
}

func checkX02(c historyCase, rec *Rec) error {
	p := newPool(c.W, dup)
	failing, objects := 0, map[string]int{}
	for i, op := range c.Ops {
		if op.K == "rekey" {
			p.rekey(op, rec)
			continue
		}
		if op.K == "refill" { // the caller reuses a buffer for other data
			switch op.D % 3 {
			case 0:
				x, y := op.A%len(p.msgs), op.B%len(p.msgs)
				src := dup(p.model[y])
				copy(p.msgs[x], src)
				copy(p.model[x], src)
			case 1:
				x, y := op.A%len(p.ctB), op.B%len(p.ctB)
				src := dup(p.ctM[y])
				copy(p.ctB[x], src)
				copy(p.ctM[x], src)
			case 2:
				if n := len(p.msgs[op.A%len(p.msgs)]); n > 0 {
					x := op.A % len(p.msgs)
					p.msgs[x][op.C%n] ^= byte(1 << op.B)
					p.model[x][op.C%n] ^= byte(1 << op.B)
				}
			}
			continue
		}
		a, o := p.resolve(op)
		if op.D >= 6 { // with fresh objects after what came before
			if a.Kind == "encrypt" || a.Kind == "genkey" {
				p.rd.pos += len(a.Rnd)
			}
			o = fresh(a)
		}
		var back scribble
		if (op.B+op.C)%3 == 0 {
			back.on(o)
		}
		got := do(a, o)
		if err := judge(a, got, rec); err != nil {
			return fmt.Errorf("operation %d: %v", i, err)
		}
		if back.over() > 0 {
			rec.Class("results of %s written over", a.Kind)
		}
		if got == "refused" || got == "false" {
			failing++
			rec.Class("%s refused", a.Kind)
		} else {
			rec.Class("%s", a.Kind)
		}
		objects[fmt.Sprint(a.Kind, op.A)]++
	}
	if failing > 0 {
		rec.Class("history with failures")
	}
	for _, n := range objects {
		if n > 1 {
			rec.NT()
		}
	}
	return nil
}

// ---------- X03 ----------

type concCase struct {
	W     World
	Progs [][]Op
	Procs int
}

var x03Kinds = []string{"sign", "sign", "verify", "verify", "canon", "sigform", "sigform", "parse", "frombig", "encsys", "encsys", "decrypt", "decrypt", "shared", "derive", "gensys", "hash", "strings", "clamp"}

type concRes struct {
	a   *Args
	res string
	enc []byte // ciphertext with system randomness
}

func checkX03(c concCase, rec *Rec) error {
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	p := newPool(c.W, dup)
	type step struct {
		a  *Args
		o  *objs
		bc xc.BlockCipher
	}
	progs := make([][]step, len(c.Progs))
	users := map[string]map[int]bool{}
	for i, ops := range c.Progs {
		for _, op := range ops {
			var s step
			switch op.K {
			case "encsys":
				k, b := op.A%len(c.W.Keys), op.B%len(p.pubs)
				m := op.C % len(p.msgs)
				s.a = &Args{Kind: op.K, Priv: c.W.Keys[k], Pub2: p.pubs[b], Msg: p.model[m]}
				s.o = &objs{msg: p.msgs[m]}
				s.bc = p.encs[k*len(p.pubs)+b]
			case "gensys":
				s.a, s.o = &Args{Kind: op.K}, &objs{gen: p.sysGen}
			default:
				s.a, s.o = p.resolve(op)
			}
			progs[i] = append(progs[i], s)
			u := fmt.Sprint(op.A % len(c.W.Keys))
			if users[u] == nil {
				users[u] = map[int]bool{}
			}
			users[u][i] = true
		}
	}
	for _, u := range users {
		if len(u) > 1 {
			rec.NT()
		}
	}
	rec.Class("%d goroutines", len(progs))
	results := make([][]concRes, len(progs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range progs[i] {
				r := concRes{a: s.a}
				switch s.a.Kind {
				case "encsys":
					func() {
						defer func() {
							if e := recover(); e != nil {
								r.res = fmt.Sprintf("panic: %v", e)
							}
						}()
						ct, err := s.bc.Encrypt(s.o.msg)
						r.enc, r.res = ct, orErr(ct, err)
					}()
				case "gensys":
					func() {
						defer func() {
							if e := recover(); e != nil {
								r.res = fmt.Sprintf("panic: %v", e)
							}
						}()
						kp, err := s.o.gen.GenerateKeyPair()
						if err != nil {
							r.res = "refused"
							return
						}
						r.res = hx(kp.PrivateKey.Raw) + " " + hx(kp.PublicKey.Raw)
						r.enc = append(dup(kp.PrivateKey.Raw), kp.PublicKey.Raw...)
					}()
				default:
					r.res = do(s.a, s.o)
				}
				results[i] = append(results[i], r)
			}
		}()
	}
	close(start)
	wg.Wait()
	salts := map[string]bool{}
	for i := range results {
		for j, r := range results[i] {
			rec.Class("%s", r.a.Kind)
			switch r.a.Kind {
			case "encsys":
				if err := judgeEnc(r.a, r.res, r.enc, salts, rec); err != nil {
					return fmt.Errorf("goroutine %d, operation %d: %v", i, j, err)
				}
			case "gensys":
				if len(r.enc) != 64 || !bytes.Equal(r.enc[32:], ref.Pub(r.enc[:32])) || salts[string(r.enc[:32])] {
					b := &Args{Kind: "derive", Priv: make([]byte, 32)}
					if len(r.enc) == 64 && !salts[string(r.enc[:32])] {
						b.Priv = r.enc[:32]
						if err := judge(b, hx(r.enc[32:]), rec); err == nil {
							continue
						}
					}
					return fmt.Errorf("goroutine %d, operation %d: generated pair %s", i, j, r.res)
				}
				salts[string(r.enc[:32])] = true
			default:
				if err := judge(r.a, r.res, rec); err != nil {
					return fmt.Errorf("goroutine %d, operation %d: %v", i, j, err)
				}
			}
		}
	}
	return nil
}

// judgeEnc judges a ciphertext made with system randomness: it is what the cipher
// alone makes of its own salt and iv, and these are used once.
func judgeEnc(a *Args, res string, ct []byte, salts map[string]bool, rec *Rec) error {
	if len(ct) < 48 {
		if ref.Decode(a.Pub2) == nil && res == "refused" {
			return nil
		}
		b := *a
		b.Kind, b.Rnd = "encrypt", expand(1, 48)
		if al := alone(&b); al == res {
			return nil
		}
		return fmt.Errorf("encryption gives %s", clip(res, 300))
	}
	if salts[string(ct[:32])] || salts[string(ct[32:48])] {
		return fmt.Errorf("salt %x or iv %x used twice", ct[:32], ct[32:48])
	}
	salts[string(ct[:32])], salts[string(ct[32:48])] = true, true
	b := *a
	b.Kind, b.Rnd = "encrypt", dup(ct[:48])
	return judge(&b, hx(ct), rec)
}

// checkX02alone runs operations in this process and each of them in a process
// in which nothing came before.
func checkX02alone(c historyCase, rec *Rec) error {
	p := newPool(c.W, dup)
	for i, op := range c.Ops {
		a, o := p.resolve(op)
		got := do(a, o)
		rec.Class("%s", a.Kind)
		rec.NT()
		al := alone(a)
		if strings.HasPrefix(al, "process died") { // not for want of memory or the like
			al = alone(a)
		}
		if al != got {
			b, _ := json.Marshal(a)
			return fmt.Errorf("operation %d: %s gives %s, in a process of its own %s; inputs %s", i, a.Kind, clip(got, 300), clip(al, 300), clip(string(b), 1500))
		}
	}
	return nil
}

func init() {
	hist := func(kinds []string, min, max int) func(t *rapid.T) historyCase {
		return func(t *rapid.T) historyCase { return historyCase{genWorld(t, true), genOps(t, kinds, min, max)} }
	}
	allTabs := make([]tabCase, 32)
	for i := range allTabs {
		allTabs[i].Pos = i
	}
	register(&Prop{ID: "X01", Isolate: true, Facets: []*Facet{
		overlapping(4000, 200000, "derive", "sign", "verify", "canonical", "encrypt", "decrypt", "shared", "hash", "scalars"),
		F("constants", "every case: the 32 positions of the base table, each with all 17 digits, before anything else ran", 0, 0, func(t *rapid.T) tabCase { return tabCase{rapid.IntRange(0, 31).Draw(t, "pos")} }, checkX01const, allTabs...),
		F("frozen", "at least two kinds of operation", 8000, 300000, func(t *rapid.T) frozenCase {
			return frozenCase{genWorld(t, rapid.IntRange(0, 3).Draw(t, "hostile") == 0), rapid.Uint64().Draw(t, "arena"), genOps(t, x01Kinds, 1, 10)}
		}, checkX01),
		F("base-point", "every case", 3000, 60000, func(t *rapid.T) useCase {
			return useCase{rapid.Uint64().Draw(t, "seed"), rapid.SliceOfN(rapid.IntRange(0, 7), 1, 5).Draw(t, "how")}
		}, checkX01base),
	}, Assumptions: []string{"memory is compared over the whole buffer around the arguments, including spare capacity; private copies inside the library are not looked at"}})
	register(&Prop{ID: "X02", Isolate: true, Facets: []*Facet{
		afterFailures(300, 10000, "verify", "bad-keys", "no-private-key", "decrypt", "bad-senders", "encrypt", "generate", "shared", "decode", "parse"),
		refilled(4000, 150000, true, "sign", "verify", "signature", "key", "encrypt", "decrypt", "shared", "hash", "encoded-point", "encoded-field", "field", "point"),
		overlapping(3000, 100000, "derive", "sign", "verify", "canonical", "encrypt", "decrypt", "shared", "hash", "scalars"),
		F("histories", "at least two operations of one kind on one object", 10000, 400000, hist(x02Kinds, 4, 20), checkX02),
		F("focused-histories", "at least two operations of one kind on one object", 6000, 200000, func(t *rapid.T) historyCase {
			kinds := []string{rapid.SampledFrom(x02Kinds).Draw(t, "k1"), rapid.SampledFrom(x02Kinds).Draw(t, "k2"), rapid.SampledFrom([]string{"rekey", "refill"}).Draw(t, "k3")}
			c := historyCase{genWorld(t, true), genOps(t, kinds, 6, 24)}
			if rapid.Bool().Draw(t, "few") { // on few objects
				for i := range c.Ops {
					c.Ops[i].A, c.Ops[i].C = c.Ops[i].A%2, c.Ops[i].C|1
				}
			}
			return c
		}, checkX02),
		F("first-in-process", "every case: each operation also in a process of its own", 600, 12000, func(t *rapid.T) historyCase {
			c := hist(x02Kinds, 2, 4)(t)
			ops := c.Ops[:0]
			for _, op := range c.Ops {
				if op.K != "rekey" && op.K != "refill" {
					ops = append(ops, op)
				}
			}
			c.Ops = ops
			return c
		}, checkX02alone),
		F("long-histories", "at least two operations of one kind on one object", 300, 6000, hist(x02Kinds, 60, 200), checkX02),
	}, Assumptions: []string{"what an operation gives alone is taken from the reference model; where it differs the operation is run in a process of its own, and only a difference to that counts"}})
	register(&Prop{ID: "X03", Race: true, Facets: []*Facet{
		F("concurrent", "at least two goroutines work with one key", 4000, 150000, func(t *rapid.T) concCase {
			c := concCase{W: genWorld(t, rapid.IntRange(0, 3).Draw(t, "hostile") == 0), Procs: rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "procs")}
			kinds := x03Kinds
			if rapid.IntRange(0, 2).Draw(t, "focus") == 0 { // all do the same few things
				kinds = []string{rapid.SampledFrom(x03Kinds).Draw(t, "k1"), rapid.SampledFrom(x03Kinds).Draw(t, "k2")}
			}
			n := rapid.IntRange(2, 8).Draw(t, "ngo")
			for i := 0; i < n; i++ {
				c.Progs = append(c.Progs, genOps(t, kinds, 1, 5))
			}
			return c
		}, checkX03),
		F("crowd", "at least two goroutines work with one key", 100, 3000, func(t *rapid.T) concCase {
			c := concCase{W: genWorld(t, false), Procs: rapid.SampledFrom([]int{2, 8, 16}).Draw(t, "procs")}
			kinds := []string{rapid.SampledFrom([]string{"sign", "verify", "encsys", "decrypt", "shared", "derive", "gensys", "hash", "canon", "strings"}).Draw(t, "kind")}
			n := rapid.IntRange(20, 80).Draw(t, "ngo")
			few := rapid.Bool().Draw(t, "few")
			for i := 0; i < n; i++ {
				ops := genOps(t, kinds, 1, 3)
				if few { // all on one object
					for j := range ops {
						ops[j].A, ops[j].B = 0, 0
					}
				}
				c.Progs = append(c.Progs, ops)
			}
			return c
		}, checkX03),
	}, Assumptions: []string{"interleavings are those the Go scheduler produces; the race detector reports unsynchronised access also where the results happen to agree"}})
}

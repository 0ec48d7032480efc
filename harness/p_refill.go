package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- refilled: one object whose bytes the caller changes between uses ----------

// An object holds slots (byte strings); what it gives must follow from what the
// slots hold when it is asked, whatever they held before.

type refillStep struct {
	V     [4]int // version of the value for each slot
	Style int    // in place, with a new slice, with a new part
	N     int    // what is asked
}

type refillCase struct {
	Kind  string
	Seed  uint64
	Near  int // how the versions are related
	How   int
	Steps []refillStep
}

type refillObj struct {
	set  func(i int, v []byte, style int)
	read func(n int) string
}

type refillKind struct {
	values func(m *mix, near int) [][]byte // a fourth value at most
	make   func(v [][]byte, how int) refillObj
	want   func(v [][]byte, n int) string
}

// refillVersions gives three versions of the slots; near says how close they are.
func (k refillKind) versions(seed uint64, near int) [3][][]byte {
	var r [3][][]byte
	for i := range r {
		m := mix(seed + uint64(i)*7919)
		r[i] = k.values(&m, near)
	}
	return r
}

// fill writes v into the slice p points to.
func fill(p *[]byte, v []byte, style int) {
	if style > 0 || len(*p) != len(v) {
		*p = dup(v)
		return
	}
	copy(*p, v)
}

// some32 gives 32 bytes of many kinds.
func (m *mix) some32() []byte {
	b := expand(m.next(), 32)
	switch m.next() % 8 {
	case 0:
		b = make([]byte, 32)
		b[0] = byte(m.next() % 4)
	case 1:
		b = leB(new(big.Int).Add(ref.L, bi(int64(m.next()%5)-2)), 32)
	case 2:
		b = leB(new(big.Int).Add(ref.P, bi(int64(m.next()%5)-2)), 32)
	case 3, 4:
		b = ref.Pub(b)
	case 5:
		b[31] &= 0x0f
	}
	return b
}

// closeTo gives the version of b that is near to one of a fixed seed: one bit off, or with words exchanged.
func (m *mix) closeTo(b []byte, near int) []byte {
	n := uint64(len(b))
	if n < 2 {
		return b
	}
	switch near % 3 {
	case 0:
		b[m.next()%n] ^= 1 << (m.next() % 8)
	case 1:
		i, j := m.next()%n, m.next()%n
		b[i], b[j] = b[j], b[i]
	case 2:
		b[n-1] ^= byte(m.next())
	}
	return b
}

func limbBytes(l Limbs) []byte {
	var b []byte
	for _, v := range l {
		b = binary.LittleEndian.AppendUint64(b, uint64(v))
	}
	return b
}

func bytesLimbs(b []byte) (l Limbs) {
	for i := range l {
		l[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
	}
	return l
}

func setLimbs(p **xc.Ed25519FieldElement, v []byte, style int) {
	if style > 0 {
		e := fe(bytesLimbs(v))
		*p = &e
		return
	}
	(*p).Raw = bytesLimbs(v)
}

func yes(b bool) string { return fmt.Sprint(b) }

func setPriv(kp *xc.KeyPair, v []byte, style int) {
	if style == 2 {
		kp.PrivateKey = xc.NewPrivateKey(dup(v))
		return
	}
	fill(&kp.PrivateKey.Raw, v, style)
}

func setPub(kp *xc.KeyPair, v []byte, style int) {
	if style == 2 {
		kp.PublicKey = xc.NewPublicKey(dup(v))
		return
	}
	fill(&kp.PublicKey.Raw, v, style)
}

var refillKinds = map[string]refillKind{
	"sign": {
		values: func(m *mix, near int) [][]byte {
			a := expand(m.next(), 32)
			if near > 0 {
				a = m.closeTo(expand(uint64(near), 32), near)
			}
			return [][]byte{a, ref.Pub(a), expand(m.next(), 20)}
		},
		make: func(v [][]byte, how int) refillObj {
			kp := mustPair(v[0], v[1], how)
			d, msg := signerOf(kp, how), dup(v[2])
			return refillObj{func(i int, v []byte, style int) {
				switch i {
				case 0:
					setPriv(kp, v, style)
				case 1:
					setPub(kp, v, style)
				case 2:
					fill(&msg, v, style)
				}
			}, func(n int) string {
				sig, err := d.Sign(msg)
				if err != nil {
					return "refused"
				}
				return hx(sig.Bytes())
			}}
		},
		want: func(v [][]byte, n int) string { return hx(ref.Sign(v[0], v[1], v[2])) },
	},
	"verify": {
		values: func(m *mix, near int) [][]byte {
			a, msg := expand(m.next(), 32), expand(m.next(), 20)
			if near%2 == 1 {
				a = expand(uint64(near), 32)
			} else if near > 0 {
				msg = m.closeTo(expand(uint64(near), 20), near)
			}
			sig := ref.Sign(a, ref.Pub(a), msg)
			return [][]byte{ref.Pub(a), msg, sig[:32], sig[32:]}
		},
		make: func(v [][]byte, how int) refillObj {
			kp := mustPair(nil, v[0], how)
			d, msg, sig := signerOf(kp, how), dup(v[1]), sigOf(v[2], v[3])
			return refillObj{func(i int, v []byte, style int) {
				switch i {
				case 0:
					setPub(kp, v, style)
				case 1:
					fill(&msg, v, style)
				case 2:
					fill(&sig.R, v, style)
				case 3:
					fill(&sig.S, v, style)
				}
			}, func(n int) string { return yes(d.Verify(msg, sig)) }}
		},
		want: func(v [][]byte, n int) string { return yes(ref.Verify(v[0], v[1], v[2], v[3])) },
	},
	"signature": {
		values: func(m *mix, near int) [][]byte { return [][]byte{m.some32(), m.some32()} },
		make: func(v [][]byte, how int) refillObj {
			sig := sigOf(v[0], v[1])
			if how%2 == 0 { // parsed
				var err error
				sig, err = xc.NewSignatureFromBytes(append(dup(v[0]), v[1]...))
				if err != nil {
					panic(harnessError(err.Error()))
				}
			}
			d := xc.NewEd25519DsaSigner(mustPair(nil, ref.Pub(make([]byte, 32)), 0))
			return refillObj{func(i int, v []byte, style int) {
				if i == 0 {
					fill(&sig.R, v, style)
				} else {
					fill(&sig.S, v, style)
				}
			}, func(n int) string {
				switch n % 5 {
				case 0:
					return hx(sig.Bytes())
				case 1:
					return sig.String()
				case 2:
					return sig.GetR().Text(16) + " " + sig.GetS().Text(16)
				case 3:
					return yes(d.IsCanonicalSignature(sig))
				}
				k, err := d.MakeSignatureCanonical(sig)
				if err != nil {
					return "refused"
				}
				return hx(k.Bytes())
			}}
		},
		want: func(v [][]byte, n int) string {
			s := ref.LE(v[1])
			switch n % 5 {
			case 2:
				return ref.LE(v[0]).Text(16) + " " + s.Text(16)
			case 3:
				return yes(s.Sign() > 0 && s.Cmp(ref.L) < 0)
			case 4:
				return hx(v[0]) + hx(leB(ref.ModL(v[1]), 32))
			}
			return hx(v[0]) + hx(v[1])
		},
	},
	"key": {
		values: func(m *mix, near int) [][]byte {
			a := m.some32()
			if near > 0 {
				a = m.closeTo(expand(uint64(near), 32), near)
			}
			return [][]byte{a}
		},
		make: func(v [][]byte, how int) refillObj {
			raw := dup(v[0])
			k := xc.NewPrivateKey(raw)
			p := xc.NewPublicKey(raw)
			gen := xc.NewEd25519KeyGenerator(nil)
			return refillObj{func(i int, v []byte, style int) {
				fill(&raw, v, style)
				if style > 0 {
					k.Raw, p.Raw = raw, raw
				}
			}, func(n int) string {
				switch n % 5 {
				case 0:
					return hx(gen.DerivePublicKey(k).Raw)
				case 1:
					return k.String()
				case 2:
					return p.String()
				case 3:
					kp, err := xc.NewKeyPair(k, nil, engineOf(how))
					if err != nil {
						return "refused"
					}
					return hx(kp.PublicKey.Raw)
				}
				return hx(xc.PrepareForScalarMultiply(k).Raw)
			}}
		},
		want: func(v [][]byte, n int) string {
			switch n % 5 {
			case 1:
				return hx(v[0])
			case 2:
				return strings.ToUpper(hx(v[0]))
			case 4:
				return hx(ref.Clamp(v[0]))
			}
			return hx(ref.Pub(v[0]))
		},
	},
	"encrypt": {
		values: func(m *mix, near int) [][]byte {
			return [][]byte{expand(m.next(), 32), ref.Pub(expand(m.next(), 32)), expand(m.next(), 30), expand(m.next(), 48)}
		},
		make: func(v [][]byte, how int) refillObj {
			from, to, msg := mustPair(v[0], nil, how), mustPair(nil, v[1], how), dup(v[2])
			src := &refillSource{dup(v[3])}
			c := xc.NewEd25519BlockCipher(from, to, src)
			return refillObj{func(i int, v []byte, style int) {
				switch i {
				case 0:
					setPriv(from, v, style)
				case 1:
					setPub(to, v, style)
				case 2:
					fill(&msg, v, style)
				case 3:
					src.b = dup(v)
				}
			}, func(n int) string { b := src.b; defer func() { src.b = b }(); return orErr(c.Encrypt(msg)) }}
		},
		want: func(v [][]byte, n int) string { return orErr(ref.Encrypt(v[0], v[1], v[3][:32], v[3][32:], v[2])) },
	},
	"decrypt": {
		values: func(m *mix, near int) [][]byte {
			a, b, msg := expand(m.next(), 32), expand(m.next(), 32), expand(m.next(), 30)
			if near%2 == 1 { // between the same two
				a, b = expand(uint64(near), 32), expand(uint64(near)+1, 32)
			}
			ct, err := ref.Encrypt(a, ref.Pub(b), expand(m.next(), 32), expand(m.next(), 16), msg)
			if err != nil {
				panic(harnessError("own key refused"))
			}
			return [][]byte{b, ref.Pub(a), ct}
		},
		make: func(v [][]byte, how int) refillObj {
			to, from, ct := mustPair(v[0], nil, how), mustPair(nil, v[1], how), dup(v[2])
			c := cipherOf(from, to, nil, how)
			return refillObj{func(i int, v []byte, style int) {
				switch i {
				case 0:
					setPriv(to, v, style)
				case 1:
					setPub(from, v, style)
				case 2:
					fill(&ct, v, style)
				}
			}, func(n int) string { return orErr(c.Decrypt(ct)) }}
		},
		want: func(v [][]byte, n int) string {
			b, err := ref.Decrypt(v[0], v[1], v[2])
			if err != nil {
				return "refused"
			}
			return hx(b)
		},
	},
	"shared": {
		values: func(m *mix, near int) [][]byte {
			return [][]byte{expand(m.next(), 32), ref.Pub(expand(m.next(), 32)), expand(m.next(), 32)}
		},
		make: func(v [][]byte, how int) refillObj {
			k, p, salt := xc.NewPrivateKey(dup(v[0])), xc.NewPublicKey(dup(v[1])), dup(v[2])
			c := xc.NewEd25519BlockCipher(mustPair(nil, v[1], 0), mustPair(nil, v[1], 0), nil)
			return refillObj{func(i int, v []byte, style int) {
				fill([]*[]byte{&k.Raw, &p.Raw, &salt}[i], v, style)
			}, func(n int) string { return orErr(c.GetSharedKey(k, p, salt)) }}
		},
		want: func(v [][]byte, n int) string { return orErr(ref.SharedKey(v[0], v[1], v[2])) },
	},
	"hash": {
		values: func(m *mix, near int) [][]byte {
			n := []int{0, 1, 32, 64, 71, 72, 135, 136, 300}[near%9]
			return [][]byte{expand(m.next(), n), expand(m.next(), 40)}
		},
		make: func(v [][]byte, how int) refillObj {
			a, b := dup(v[0]), dup(v[1])
			return refillObj{func(i int, v []byte, style int) {
				fill([]*[]byte{&a, &b}[i], v, style)
			}, func(n int) string {
				h, err := []func() ([]byte, error){
					func() ([]byte, error) { return xc.HashesSha_256(a) },
					func() ([]byte, error) { return xc.HashesKeccak_256(a) },
					func() ([]byte, error) { return xc.HashesSha3_256(a) },
					func() ([]byte, error) { return xc.HashesSha3_512(a, b) },
					func() ([]byte, error) { return xc.HashesRipemd160(a) },
				}[n%5]()
				return orErr(h, err)
			}}
		},
		want: func(v [][]byte, n int) string {
			return want(&Args{Kind: "hash", N: n % 5, Msg: v[0], Msg2: v[1]})
		},
	},
	"encoded-point": {
		values: func(m *mix, near int) [][]byte {
			a := m.some32()
			if near > 0 {
				a = m.closeTo(ref.Pub(expand(uint64(near), 32)), near)
			}
			return [][]byte{a, m.some32()}
		},
		make: func(v [][]byte, how int) refillObj {
			e, e2 := encG(dup(v[0])), encG(dup(v[1]))
			return refillObj{func(i int, v []byte, style int) {
				fill(&[]*xc.Ed25519EncodedGroupElement{e, e2}[i].Raw, v, style)
			}, func(n int) string {
				switch n % 5 {
				case 0:
					g, err := e.Decode()
					return gotAff(g, xc.P3, err)
				case 1:
					x, err := e.GetAffineX()
					if err != nil {
						return "refused"
					}
					return val(x.Raw).Text(16)
				case 2:
					y, err := e.GetAffineY()
					if err != nil {
						return "refused"
					}
					return val(y.Raw).Text(16)
				case 3:
					return yes(e.Equals(e2))
				}
				s := e.String()
				if !strings.HasPrefix(s, "x=") {
					return "no point"
				}
				return s
			}}
		},
		want: func(v [][]byte, n int) string {
			p := ref.Decode(v[0])
			switch {
			case n%5 == 2:
				y := ref.LE(v[0])
				return modP(y.SetBit(y, 255, 0)).Text(16)
			case n%5 == 3:
				return yes(string(v[0]) == string(v[1]))
			case n%5 == 4 && p == nil:
				return "no point"
			case p == nil:
				return "refused"
			}
			a := ref.AffOf(p)
			switch n % 5 {
			case 0:
				return affStr(a)
			case 1:
				return a.X.Text(16)
			}
			return "x=" + hex.EncodeToString(ref.ToLE(a.X, 32)) + "\ny=" + hex.EncodeToString(ref.ToLE(a.Y, 32)) + "\n"
		},
	},
	"encoded-field": {
		values: func(m *mix, near int) [][]byte { return [][]byte{m.some32(), m.some32(), m.some32()} },
		make: func(v [][]byte, how int) refillObj {
			var e [3]*xc.Ed25519EncodedFieldElement
			for i := range e {
				e[i] = encF(dup(v[i]))
			}
			return refillObj{func(i int, v []byte, style int) { fill(&e[i].Raw, v, style) }, func(n int) string {
				switch n % 7 {
				case 0:
					return val(e[0].Decode().Raw).Text(16)
				case 1:
					return yes(e[0].IsNegative())
				case 2:
					return yes(e[0].IsNonZero())
				case 3:
					return yes(e[0].Equals(e[1]))
				case 4:
					return e[0].String()
				case 5:
					return hx(xc.MathUtils.ReduceModGroupOrder(e[0]).Raw)
				}
				if xc.VX.MulAddQ == nil {
					w := ref.LE(e[0].Raw)
					w.Mul(w, ref.LE(e[1].Raw)).Add(w, ref.LE(e[2].Raw)).Mod(w, ref.L)
					return hx(leB(w, 32))
				}
				return hx(xc.VX.MulAddQ(e[0], e[1], e[2]).Raw)
			}}
		},
		want: func(v [][]byte, n int) string {
			x := ref.LE(v[0])
			switch n % 7 {
			case 0:
				return modP(x.SetBit(x, 255, 0)).Text(16)
			case 1:
				return yes(v[0][0]&1 == 1)
			case 2:
				return yes(x.Sign() != 0)
			case 3:
				return yes(string(v[0]) == string(v[1]))
			case 4:
				return hx(v[0])
			case 5:
				return hx(leB(ref.ModL(v[0]), 32))
			}
			x.Mul(x, ref.LE(v[1])).Add(x, ref.LE(v[2])).Mod(x, ref.L)
			return hx(leB(x, 32))
		},
	},
	"field": {
		values: func(m *mix, near int) [][]byte {
			a, b := val(limbsOf(ref.LE(m.some32()), sumIn, 0)), modP(ref.LE(m.some32()))
			return [][]byte{limbBytes(limbsOf(modP(a), sumIn, m.next()*uint64(near%2))), limbBytes(limbsOf(b, sumIn, m.next()*uint64(near%2)))}
		},
		make: func(v [][]byte, how int) refillObj {
			a, b := fe(bytesLimbs(v[0])), fe(bytesLimbs(v[1]))
			p, q := &a, &b
			return refillObj{func(i int, v []byte, style int) { setLimbs([]**xc.Ed25519FieldElement{&p, &q}[i], v, style) }, func(n int) string {
				switch n % 7 {
				case 0:
					return hx(p.Encode().Raw)
				case 1:
					return yes(p.IsNegative())
				case 2:
					return yes(p.IsNonZero())
				case 3:
					return yes(p.Equals(q))
				case 4:
					return p.String()
				case 5:
					r := xc.Ed25519FieldElementSqrt(*p, *q)
					return val(r.Raw).Text(16)
				}
				return xc.MathUtils.FieldToBigInteger(p).Text(16)
			}}
		},
		want: func(v [][]byte, n int) string {
			x, y := val(bytesLimbs(v[0])), val(bytesLimbs(v[1]))
			h := hx(leB(x, 32))
			switch n % 7 {
			case 1:
				return yes(x.Bit(0) == 1)
			case 2:
				return yes(x.Sign() != 0)
			case 3:
				return yes(x.Cmp(y) == 0)
			case 5:
				return sqrtFrac(x, y).Text(16)
			case 6:
				return x.Text(16)
			}
			return h
		},
	},
	"point": {
		// slots: the coordinates of a point in P3 as four limb vectors, and the point they are of
		values: func(m *mix, near int) [][]byte {
			p := ref.Decode(ref.Pub(expand(m.next()%5+uint64(near), 32)))
			r := Rep{expand(m.next(), 32), expand(m.next(), 32), m.next() * uint64(near%2)}
			if m.next()%4 == 0 {
				r.L1 = leB(bi(1), 32)
			}
			g := r.hold(ref.AffOf(p), xc.P3)
			var all []byte
			for _, c := range []*xc.Ed25519FieldElement{g.X, g.Y, g.Z, g.T} {
				all = append(all, limbBytes(c.Raw)...)
			}
			return [][]byte{append(all, p.Bytes()...), append(dup(all), p.Bytes()...)}
		},
		make: func(v [][]byte, how int) refillObj {
			var g [2]*xc.Ed25519GroupElement
			for i := range g {
				var c [4]*xc.Ed25519FieldElement
				for j := range c {
					e := fe(bytesLimbs(v[i][80*j:]))
					c[j] = &e
				}
				g[i] = xc.NewEd25519GroupElementP3(c[0], c[1], c[2], c[3])
			}
			return refillObj{func(i int, v []byte, style int) {
				for j, p := range []**xc.Ed25519FieldElement{&g[i].X, &g[i].Y, &g[i].Z, &g[i].T} {
					setLimbs(p, v[80*j:], style)
				}
			}, func(n int) string {
				p, q := g[0], g[1]
				switch n % 5 {
				case 0:
					return orErr(encodeG(p))
				case 1:
					return yes(p.Equals(q)) + yes(q.Equals(p))
				case 2:
					return yes(p.SatisfiesCurveEquation())
				case 3:
					return strings.TrimSpace(p.String())
				}
				return gotAff(xc.MathUtils.AddGroupElements(p, q), xc.P3, nil)
			}}
		},
		want: func(v [][]byte, n int) string {
			a, b := ref.Decode(v[0][320:]), ref.Decode(v[1][320:])
			switch n % 5 {
			case 0:
				return hx(v[0][320:])
			case 1:
				eq := a.Equal(b) == 1
				return yes(eq) + yes(eq)
			case 2:
				return "true"
			case 3:
				s := ""
				for j, name := range []string{"X", "Y", "Z", "T"} {
					s += "\n" + name + "=" + canonHex(bytesLimbs(v[0][80*j:]))
				}
				return s[1:]
			}
			return affStr(ref.AddAff(ref.AffOf(a), ref.AffOf(b)))
		},
	},
}

type refillSource struct{ b []byte }

func (s *refillSource) Read(p []byte) (int, error) {
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

// refilled builds the facet. With apart the object is compared with a fresh one
// that holds the same (what is wrong by itself belongs to other properties).
func refilled(quick, thorough int, apart bool, kinds ...string) *Facet {
	for _, k := range kinds {
		if refillKinds[k].make == nil {
			panic("kind " + k)
		}
	}
	gen := func(t *rapid.T) refillCase {
		c := refillCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed"), Near: rapid.IntRange(0, 20).Draw(t, "near"), How: rapid.IntRange(0, 59).Draw(t, "how")}
		n := rapid.IntRange(2, 6).Draw(t, "steps")
		for i := 0; i < n; i++ {
			s := refillStep{Style: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "style"), N: rapid.IntRange(0, 34).Draw(t, "ask")}
			if i > 0 && rapid.Bool().Draw(t, "again") {
				s.N = c.Steps[i-1].N
			}
			v := rapid.IntRange(0, 2).Draw(t, "version")
			s.V = [4]int{v, v, v, v}
			if rapid.IntRange(0, 2).Draw(t, "one") == 0 { // one slot only
				if i > 0 {
					s.V = c.Steps[i-1].V
				}
				s.V[rapid.IntRange(0, 3).Draw(t, "slot")] = v
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}
	return F("refilled", "the object is asked the same again after its bytes changed", quick, thorough, gen, func(c refillCase, rec *Rec) error {
		k := refillKinds[c.Kind]
		vs := k.versions(c.Seed, c.Near)
		rec.Class("%s", c.Kind)
		var o refillObj
		now := make([]int, len(vs[0]))
		asked := map[int]string{}
		for i, s := range c.Steps {
			v := make([][]byte, len(now))
			for j := range v {
				v[j] = vs[s.V[j]][j]
			}
			if i == 0 {
				o = k.make(v, c.How)
			} else {
				for j := range v {
					if s.V[j] != now[j] {
						o.set(j, v[j], s.Style)
					}
				}
			}
			for j := range now {
				now[j] = s.V[j]
			}
			if w, ok := asked[s.N]; ok && w != fmt.Sprint(now) {
				rec.NT()
			}
			asked[s.N] = fmt.Sprint(now)
			w := k.want(v, s.N)
			got := o.read(s.N)
			if got == w {
				continue
			}
			if apart && k.make(v, c.How).read(s.N) == got {
				rec.Class("%s wrong by itself (a matter of other properties)", c.Kind)
				return nil
			}
			return fmt.Errorf("step %d: %s (%d) gives %s after its bytes changed, they stand for %s", i, c.Kind, s.N, clip(got, 300), clip(w, 300))
		}
		return nil
	})
}

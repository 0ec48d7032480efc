package main

import (
	"bytes"
	"fmt"
	"math/big"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

// ---------- representations of points ----------

// Rep says how a point is held: two projective factors and a choice of limbs.
type Rep struct {
	L1, L2 Hex    // factors, 32 bytes little endian; 0 mod p stands for 1
	Seed   uint64 // choice of limbs, 0 for the plain reduced ones
}

func genRep(t *rapid.T) Rep {
	var r Rep
	switch rapid.IntRange(0, 4).Draw(t, "repkind") {
	case 0: // plain
		r.L1, r.L2 = leB(bi(1), 32), leB(bi(1), 32)
	case 1: // small or special factors
		sp := []*big.Int{bi(1), bi(-1), bi(2), bi(-2), ref.SqrtM1, ref.D, bi(19), new(big.Int).Neg(ref.SqrtM1)}
		f := func() Hex {
			return leB(new(big.Int).Mod(rapid.SampledFrom(sp).Draw(t, "factor"), ref.P), 32)
		}
		r.L1, r.L2 = f(), f()
		r.Seed = rapid.Uint64().Draw(t, "limbs")
	default:
		r.L1, r.L2 = leB(genInt(t, 255), 32), leB(genInt(t, 255), 32)
		r.Seed = rapid.Uint64().Draw(t, "limbs")
	}
	return r
}

func (r Rep) factors() (a, b *big.Int) {
	f := func(h Hex) *big.Int {
		v := modP(ref.LE(h))
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		return v
	}
	return f(r.L1), f(r.L2)
}

func (r Rep) kind() string {
	a, _ := r.factors()
	s := "scaled"
	if a.Cmp(ref.One) == 0 {
		s = "Z=1"
	}
	if r.Seed != 0 {
		s += ", other limbs"
	}
	return s
}

func (r Rep) fe(v *big.Int, i uint64) *xc.Ed25519FieldElement {
	s := r.Seed
	if s != 0 {
		s += i
	}
	e := fe(limbsOf(v, sumIn, s))
	return &e
}

func mulP(a, b *big.Int) *big.Int { return modP(new(big.Int).Mul(a, b)) }

// hold gives the affine point in a coordinate system.
func (r Rep) hold(a ref.Aff, cs xc.CoordinateSystem) *xc.Ed25519GroupElement {
	l, m := r.factors()
	xy := mulP(a.X, a.Y)
	switch cs {
	case xc.AFFINE:
		return xc.NewEd25519GroupElementAffine(r.fe(a.X, 1), r.fe(a.Y, 2), xc.Ed25519FieldOne())
	case xc.P2:
		return xc.NewEd25519GroupElementP2(r.fe(mulP(a.X, l), 1), r.fe(mulP(a.Y, l), 2), r.fe(l, 3))
	case xc.P3:
		return xc.NewEd25519GroupElementP3(r.fe(mulP(a.X, l), 1), r.fe(mulP(a.Y, l), 2), r.fe(l, 3), r.fe(mulP(xy, l), 4))
	case xc.P1xP1:
		return xc.NewEd25519GroupElementP1XP1(r.fe(mulP(a.X, l), 1), r.fe(mulP(a.Y, m), 2), r.fe(l, 3), r.fe(m, 4))
	case xc.PRECOMPUTED:
		t := mulP(xy, ref.D)
		return xc.NewEd25519GroupElementPrecomputed(r.fe(new(big.Int).Add(a.Y, a.X), 1), r.fe(new(big.Int).Sub(a.Y, a.X), 2), r.fe(t.Add(t, t), 3))
	case xc.CACHED:
		t := mulP(mulP(xy, ref.D), l)
		return xc.NewEd25519GroupElementCached(r.fe(mulP(new(big.Int).Add(a.Y, a.X), l), 1), r.fe(mulP(modP(new(big.Int).Sub(a.Y, a.X)), l), 2), r.fe(l, 3), r.fe(t.Add(t, t), 4))
	}
	panic(harnessError("coordinate system"))
}

// unify lets equal coordinates of the points be one object.
func unify(gs ...*gElem) {
	have := map[string]*xc.Ed25519FieldElement{}
	for _, g := range gs {
		for _, c := range []**xc.Ed25519FieldElement{&g.X, &g.Y, &g.Z, &g.T} {
			if *c == nil {
				continue
			}
			k := val((*c).Raw).Text(62)
			if e := have[k]; e != nil {
				*c = e
			} else {
				have[k] = *c
			}
		}
	}
}

// flip gives the factors another sign where the bits of n ask for it.
func (r Rep) flip(n int) Rep {
	neg := func(h Hex) Hex {
		v := modP(ref.LE(h))
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		return leB(v.Sub(ref.P, v), 32)
	}
	if n&1 != 0 {
		r.L1 = neg(r.L1)
	}
	if n&2 != 0 {
		r.L2 = neg(r.L2)
	}
	return r
}

func inv(v *big.Int) *big.Int {
	if v.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(v, ref.P)
}

// affine reads the affine point out of a group element; the redundant coordinates have to agree.
func affine(g *xc.Ed25519GroupElement, cs xc.CoordinateSystem) (ref.Aff, error) {
	if g == nil {
		return ref.Aff{}, fmt.Errorf("no point")
	}
	if g.GetCoordinateSystem() != cs {
		return ref.Aff{}, fmt.Errorf("coordinate system %d instead of %d", g.GetCoordinateSystem(), cs)
	}
	X, Y, Z := val(g.X.Raw), val(g.Y.Raw), val(g.Z.Raw)
	var T *big.Int
	if g.T != nil {
		T = val(g.T.Raw)
	}
	if cs != xc.PRECOMPUTED && cs != xc.AFFINE && Z.Sign() == 0 {
		return ref.Aff{}, fmt.Errorf("Z is zero")
	}
	half := inv(bi(2))
	d2 := new(big.Int).Add(ref.D, ref.D)
	var a ref.Aff
	switch cs {
	case xc.AFFINE:
		return ref.Aff{X: X, Y: Y}, nil
	case xc.P2, xc.P3:
		z := inv(Z)
		a = ref.Aff{X: mulP(X, z), Y: mulP(Y, z)}
		if cs == xc.P3 && mulP(T, Z).Cmp(mulP(X, Y)) != 0 {
			return a, fmt.Errorf("T*Z differs from X*Y")
		}
	case xc.P1xP1:
		if T.Sign() == 0 {
			return a, fmt.Errorf("T is zero")
		}
		a = ref.Aff{X: mulP(X, inv(Z)), Y: mulP(Y, inv(T))}
	case xc.PRECOMPUTED:
		a = ref.Aff{X: mulP(modP(new(big.Int).Sub(X, Y)), half), Y: mulP(modP(new(big.Int).Add(X, Y)), half)}
		if Z.Cmp(mulP(mulP(a.X, a.Y), d2)) != 0 {
			return a, fmt.Errorf("third coordinate differs from 2dxy")
		}
	case xc.CACHED:
		z := mulP(inv(Z), half)
		a = ref.Aff{X: mulP(modP(new(big.Int).Sub(X, Y)), z), Y: mulP(modP(new(big.Int).Add(X, Y)), z)}
		if T.Cmp(mulP(mulP(mulP(a.X, a.Y), d2), Z)) != 0 {
			return a, fmt.Errorf("fourth coordinate differs from 2dT")
		}
	}
	return a, nil
}

func eqAff(what string, got *xc.Ed25519GroupElement, cs xc.CoordinateSystem, want ref.Aff) error {
	a, err := affine(got, cs)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if a.X.Cmp(want.X) != 0 || a.Y.Cmp(want.Y) != 0 {
		return fmt.Errorf("%s: got (%x, %x) want (%x, %x)", what, a.X, a.Y, want.X, want.Y)
	}
	return nil
}

// conversions, through the internals or the exported helper
func toP3(g *xc.Ed25519GroupElement) *xc.Ed25519GroupElement { return conv(g, xc.VX.GToP3, xc.P3) }
func toP2(g *xc.Ed25519GroupElement) *xc.Ed25519GroupElement { return conv(g, xc.VX.GToP2, xc.P2) }
func toCached(g *xc.Ed25519GroupElement) *xc.Ed25519GroupElement {
	return conv(g, xc.VX.GToCached, xc.CACHED)
}
func conv(g *xc.Ed25519GroupElement, f func(*xc.Ed25519GroupElement) *xc.Ed25519GroupElement, cs xc.CoordinateSystem) *xc.Ed25519GroupElement {
	if f != nil {
		return f(g)
	}
	r, err := xc.MathUtils.ToRepresentation(g, cs)
	if err != nil {
		panic(err)
	}
	return r
}

func encG(b []byte) *xc.Ed25519EncodedGroupElement {
	e, err := xc.NewEd25519EncodedGroupElement(dup(b))
	if err != nil {
		panic(err)
	}
	return e
}

func encodeG(g *xc.Ed25519GroupElement) ([]byte, error) {
	e, err := g.Encode()
	if err != nil {
		return nil, err
	}
	return e.Raw, nil
}

// ---------- G01 ----------

type encPtCase struct{ B Hex }

func genEncPt(t *rapid.T) encPtCase {
	var b Hex
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 4:
		b = nearEnc(t)
	case 0:
		b = leB(genInt(t, 256), 32)
	case 1: // a valid y, any sign bit
		b = genPt(t).Point().Bytes()
		b[31] ^= rapid.SampledFrom([]byte{0, 0x80}).Draw(t, "sign")
	case 2: // one bit away from a point
		b = genPt(t).Point().Bytes()
		k := rapid.IntRange(0, 255).Draw(t, "bit")
		b[k/8] ^= 1 << (k % 8)
	default:
		b = genPubBytes(t)
	}
	return encPtCase{b}
}

func checkG01dec(c encPtCase, rec *Rec) error {
	rec.Class("%s", pubClass(c.B))
	rec.NT()
	e, err := xc.NewEd25519EncodedGroupElement(dup(c.B))
	if len(c.B) != 32 {
		if err == nil || e != nil {
			return fmt.Errorf("encoded point of %d bytes accepted", len(c.B))
		}
		return nil
	}
	if err != nil {
		return err
	}
	want := ref.Decode(c.B)
	g, err := e.Decode()
	x, xerr := e.GetAffineX()
	y, yerr := e.GetAffineY()
	if yerr != nil {
		return fmt.Errorf("y of %x refused: %v", []byte(c.B), yerr)
	}
	wy := ref.LE(c.B)
	wy.SetBit(wy, 255, 0)
	modP(wy)
	if err := first(eqVal("y", y.Raw, wy), same("argument", e.Raw, c.B)); err != nil {
		return err
	}
	if want == nil {
		if err == nil || g != nil || xerr == nil || x != nil {
			return fmt.Errorf("%x is no point, but was decoded (%v, %v)", []byte(c.B), err, xerr)
		}
		return nil
	}
	if err != nil || xerr != nil {
		return fmt.Errorf("point %x refused: %v, %v", []byte(c.B), err, xerr)
	}
	a := ref.AffOf(want)
	if a.Y.Cmp(wy) != 0 || !ref.OnCurve(a) || (a.X.Sign() != 0 && a.X.Bit(0) != uint(c.B[31]>>7)) {
		panic(harnessError("reference decoding"))
	}
	if err := first(eqAff("decoded point", g, xc.P3, a), eqVal("x", x.Raw, a.X)); err != nil {
		return err
	}
	out, err := encodeG(g)
	if err != nil {
		return err
	}
	if err := same("re-encoded point", out, ref.EncodeAff(a)); err != nil {
		return err
	}
	g2, err := encG(out).Decode()
	if err != nil {
		return fmt.Errorf("own encoding refused: %v", err)
	}
	return eqAff("point decoded again", g2, xc.P3, a)
}

type repCase struct {
	P  Pt
	R  Rep
	CS int
}

func genRepCase(css ...xc.CoordinateSystem) func(t *rapid.T) repCase {
	return func(t *rapid.T) repCase {
		return repCase{genPt(t), genRep(t), int(rapid.SampledFrom(css).Draw(t, "cs"))}
	}
}

func checkG01enc(c repCase, rec *Rec) error {
	cs := xc.CoordinateSystem(c.CS)
	rec.Class("system %d, %s", c.CS, c.R.kind())
	rec.Class("%s", c.P.kind())
	rec.NT()
	a := ref.AffOf(c.P.Point())
	g := c.R.hold(a, cs)
	b, err := encodeG(g)
	if err != nil {
		return err
	}
	if err := same("encoding", b, ref.EncodeAff(a)); err != nil {
		return err
	}
	h, err := encG(b).Decode()
	if err != nil {
		return fmt.Errorf("own encoding refused: %v", err)
	}
	return first(eqAff("decoded", h, xc.P3, a), eqAff("encoded point afterwards", g, cs, a))
}

// ---------- G02 ----------

type pairPtCase struct {
	P, Q   Pt
	Rp, Rq Rep
	Rel    int
	Share  int // above 0: equal factors up to sign, equal coordinates are one object
}

func genPairPt(t *rapid.T) pairPtCase {
	c := pairPtCase{genPt(t), genPt(t), genRep(t), genRep(t), rapid.IntRange(0, 9).Draw(t, "rel"), 0}
	if rapid.IntRange(0, 3).Draw(t, "sharing") == 0 {
		c.Share = rapid.IntRange(1, 4).Draw(t, "share")
		c.Rq = c.Rp.flip(c.Share)
	}
	return c
}

// points gives the two points, related in some cases.
func (c pairPtCase) points() (p, q *ed.Point, rel string) {
	p, q = c.P.Point(), c.Q.Point()
	switch c.Rel {
	case 0:
		return p, new(ed.Point).Set(p), "equal"
	case 1:
		return p, new(ed.Point).Negate(p), "opposite"
	case 2:
		return p, new(ed.Point).Add(p, ref.Torsion[1+c.Q.T%7]), "equal up to torsion"
	case 3:
		return p, new(ed.Point).Subtract(ref.Torsion[1+c.Q.T%7], p), "opposite up to torsion"
	case 4:
		return p, new(ed.Point).Add(p, p), "double"
	}
	return p, q, "unrelated"
}

func checkG02pair(c pairPtCase, rec *Rec) error {
	p, q, rel := c.points()
	rec.Class("%s", rel)
	rec.Class("%s + %s", c.P.kind(), c.Q.kind())
	rec.NT()
	ap, aq := ref.AffOf(p), ref.AffOf(q)
	sum, diff := ref.AddAff(ap, aq), ref.AddAff(ap, ref.NegAff(aq))
	x := &xc.VX
	g := c.Rp.hold(ap, xc.P3)
	h := c.Rq.hold(aq, xc.P3)
	cached, pre := c.Rq.hold(aq, xc.CACHED), c.Rq.hold(aq, xc.PRECOMPUTED)
	if c.Share > 0 {
		unify(g, h, cached, pre)
	}
	all := func(what string, r *xc.Ed25519GroupElement, want ref.Aff) error {
		if err := eqAff(what, r, xc.P1xP1, want); err != nil {
			return err
		}
		r3 := toP3(r)
		return first(eqAff(what+" in P2", toP2(r), xc.P2, want), eqAff(what+" in P3", r3, xc.P3, want), eqAff(what+" cached", toCached(r3), xc.CACHED, want))
	}
	for i, k := range []*xc.Ed25519GroupElement{cached, toCached(h)} {
		if x.GAdd != nil {
			if err := all(fmt.Sprintf("p + q (%s, cached in way %d)", rel, i), x.GAdd(g, k), sum); err != nil {
				return err
			}
		}
		if x.GSub != nil {
			if err := all(fmt.Sprintf("p - q (%s, cached in way %d)", rel, i), x.GSub(g, k), diff); err != nil {
				return err
			}
		}
	}
	if x.GPreAdd != nil {
		r, err := x.GPreAdd(g, pre)
		if err != nil {
			return err
		}
		if err := all("p + q ("+rel+", precomputed)", r, sum); err != nil {
			return err
		}
	}
	if x.GPreSub != nil {
		if err := all("p - q ("+rel+", precomputed)", x.GPreSub(g, pre), diff); err != nil {
			return err
		}
	}
	return first(eqAff("p afterwards", g, xc.P3, ap), eqAff("q afterwards", h, xc.P3, aq), eqAff("q precomputed afterwards", pre, xc.PRECOMPUTED, aq))
}

func checkG02one(c repCase, rec *Rec) error {
	rec.Class("%s, %s", c.P.kind(), c.R.kind())
	rec.NT()
	a := ref.AffOf(c.P.Point())
	dbl := ref.AddAff(a, a)
	x := &xc.VX
	g3, g2, g11 := c.R.hold(a, xc.P3), c.R.hold(a, xc.P2), c.R.hold(a, xc.P1xP1)
	if x.GDbl != nil {
		for i, g := range []*xc.Ed25519GroupElement{g3, g2} {
			r := x.GDbl(g)
			if err := first(eqAff(fmt.Sprintf("double of form %d", i), r, xc.P1xP1, dbl), eqAff("in P2", toP2(r), xc.P2, dbl), eqAff("in P3", toP3(r), xc.P3, dbl)); err != nil {
				return err
			}
		}
	}
	if x.GNeg != nil {
		n, err := x.GNeg(g3)
		if err != nil {
			return err
		}
		if err := eqAff("negated", n, xc.P3, ref.NegAff(a)); err != nil {
			return err
		}
		for i, g := range []*xc.Ed25519GroupElement{g2, g11} { // not supported, has to say so
			if r, err := x.GNeg(g); err == nil || r != nil {
				if e := eqAff("", r, xc.P3, ref.NegAff(a)); e != nil {
					return fmt.Errorf("negating form %d gives a wrong point without error", i)
				}
			}
		}
	}
	return first(
		eqAff("P3 to P2", toP2(g3), xc.P2, a), eqAff("P3 to P3", toP3(g3), xc.P3, a), eqAff("P3 to cached", toCached(g3), xc.CACHED, a),
		eqAff("P2 to P2", toP2(g2), xc.P2, a), eqAff("P1xP1 to P2", toP2(g11), xc.P2, a), eqAff("P1xP1 to P3", toP3(g11), xc.P3, a),
		eqAff("P3 afterwards", g3, xc.P3, a), eqAff("P2 afterwards", g2, xc.P2, a), eqAff("P1xP1 afterwards", g11, xc.P1xP1, a))
}

type ptOp struct{ Op, I, J int }

type ptProg struct {
	Init []Pt
	Reps []Rep
	Ops  []ptOp
}

var ptOps = []string{"add", "add", "sub", "sub", "dbl", "dbl", "neg", "preadd", "presub", "recode", "quad"}

func genPtProg(t *rapid.T) ptProg {
	var c ptProg
	for i := 0; i < 3; i++ {
		c.Init = append(c.Init, genPt(t))
		c.Reps = append(c.Reps, genRep(t))
	}
	n := rapid.IntRange(1, 30).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, ptOp{rapid.IntRange(0, len(ptOps)-1).Draw(t, "op"), rapid.IntRange(0, 2).Draw(t, "i"), rapid.IntRange(0, 2).Draw(t, "j")})
	}
	return c
}

// checkG02prog runs chains of operations on three registers against the model.
func checkG02prog(c ptProg, rec *Rec) error {
	x := &xc.VX
	if x.GAdd == nil || x.GSub == nil || x.GDbl == nil || x.GNeg == nil || x.GPreAdd == nil || x.GPreSub == nil {
		return nil
	}
	rec.NT()
	var g [3]*xc.Ed25519GroupElement
	var m [3]*ed.Point
	for i := range g {
		m[i] = c.Init[i].Point()
		g[i] = c.Reps[i].hold(ref.AffOf(m[i]), xc.P3)
	}
	for n, o := range c.Ops {
		i, j := o.I, o.J
		op := ptOps[o.Op]
		var err error
		r := new(ed.Point)
		switch op {
		case "add":
			g[i], m[i] = toP3(x.GAdd(g[i], toCached(g[j]))), r.Add(m[i], m[j])
		case "sub":
			g[i], m[i] = toP3(x.GSub(g[i], toCached(g[j]))), r.Subtract(m[i], m[j])
		case "dbl":
			g[i], m[i] = toP3(x.GDbl(g[j])), r.Add(m[j], m[j])
		case "quad": // doubling through P2
			r.Add(m[j], m[j])
			g[i], m[i] = toP3(x.GDbl(toP2(x.GDbl(toP2(g[j]))))), r.Add(r, r)
		case "neg":
			g[i], err = x.GNeg(g[j])
			m[i] = r.Negate(m[j])
		case "preadd", "presub":
			pre := Rep{L1: leB(bi(1), 32), L2: leB(bi(1), 32), Seed: uint64(n)}.hold(ref.AffOf(m[j]), xc.PRECOMPUTED)
			if op == "preadd" {
				var s *xc.Ed25519GroupElement
				if s, err = x.GPreAdd(g[i], pre); err == nil {
					g[i] = toP3(s)
				}
				m[i] = r.Add(m[i], m[j])
			} else {
				g[i], m[i] = toP3(x.GPreSub(g[i], pre)), r.Subtract(m[i], m[j])
			}
		case "recode":
			var b []byte
			if b, err = encodeG(g[j]); err == nil {
				g[i], err = encG(b).Decode()
			}
			m[i] = r.Set(m[j])
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %v", n, op, err)
		}
		if err := eqAff(fmt.Sprintf("step %d (%s)", n, op), g[i], xc.P3, ref.AffOf(m[i])); err != nil {
			return err
		}
	}
	return nil
}

// ---------- G03 ----------

type mulCase struct {
	P   Pt
	R   Rep
	A   Hex
	B   Hex
	Pre int
}

// genScalar draws a scalar below 2^bits.
func genScalar(t *rapid.T, bits int) Hex {
	if rapid.IntRange(0, 4).Draw(t, "digits") == 0 { // chosen radix-16 digits
		b := make([]byte, 32)
		m := mix(rapid.Uint64().Draw(t, "seed"))
		c := []byte{0, 7, 8, 9, 15, byte(m.next() & 15)}
		k := 1 + m.next()%6
		for i := range b {
			b[i] = c[m.next()%k] | c[m.next()%k]<<4
		}
		v := ref.LE(b)
		return leB(v.Mod(v, new(big.Int).Lsh(ref.One, uint(bits))), 32)
	}
	return leB(genInt(t, bits), 32)
}

func precompute(g *xc.Ed25519GroupElement, how int) string {
	switch how % 5 {
	case 1:
		g.PrecomputeForScalarMultiplication()
		return "twice"
	case 2:
		g.PrecomputeForDoubleScalarMultiplication()
		return "for both"
	case 3:
		g.PrecomputeForDoubleScalarMultiplication()
		g.PrecomputeForDoubleScalarMultiplication()
		g.PrecomputeForScalarMultiplication()
		return "for both, twice"
	}
	return "once"
}

func checkG03base(c mulCase, rec *Rec) error {
	if xc.VX.GMul == nil {
		return nil
	}
	rec.NT()
	want := ref.AffOf(ref.MulBase(ref.ModL(c.A)))
	rec.Class("below L %v", ref.LE(c.A).Cmp(ref.L) < 0)
	g := xc.Ed25519Group.BASE_POINT()
	rec.Class("precomputed %s", precompute(g, c.Pre))
	e := encF(c.A)
	r, err := xc.VX.GMul(g, e)
	if err != nil {
		return err
	}
	if err := first(eqAff("a*B", r, xc.P3, want), same("scalar", e.Raw, c.A)); err != nil {
		return err
	}
	if xc.VX.MulAddQ == nil || xc.VX.GAdd == nil {
		return nil
	}
	// linear in the scalar
	s := new(big.Int).Add(ref.LE(c.A), ref.LE(c.B))
	r2, err := xc.VX.GMul(g, encF(c.B))
	if err != nil {
		return err
	}
	if s.BitLen() > 255 {
		s.Mod(s, ref.L)
	}
	r3, err := xc.VX.GMul(g, encF(leB(s, 32)))
	if err != nil {
		return err
	}
	sum, err := affine(r3, xc.P3)
	if err != nil {
		return err
	}
	return eqAff("a*B + b*B against (a+b)*B", xc.VX.GAdd(r, toCached(r2)), xc.P1xP1, sum)
}

func checkG03any(c mulCase, rec *Rec) error {
	rec.Class("%s, %s", c.P.kind(), c.R.kind())
	if xc.VX.GMul == nil {
		return nil
	}
	rec.NT()
	p := c.P.Point()
	g := c.R.hold(ref.AffOf(p), xc.P3)
	if c.Pre >= 10 { // tables of the double multiplication first
		g.PrecomputeForDoubleScalarMultiplication()
	}
	g.PrecomputeForScalarMultiplication()
	rec.Class("precomputed %s", precompute(g, c.Pre))
	for i, s := range []Hex{c.A, c.B, c.A} {
		r, err := xc.VX.GMul(g, encF(s))
		if err != nil {
			return err
		}
		if err := eqAff(fmt.Sprintf("multiple %d", i), r, xc.P3, ref.AffOf(ed.ScalarMultBits(s, p))); err != nil {
			return err
		}
	}
	return eqAff("the point afterwards", g, xc.P3, ref.AffOf(p))
}

func checkG03double(c mulCase, rec *Rec) error {
	rec.Class("%s, %s", c.P.kind(), c.R.kind())
	if xc.VX.GDoubleMul == nil {
		return nil
	}
	rec.NT()
	p := c.P.Point()
	g := c.R.hold(ref.AffOf(p), xc.P3)
	if c.Pre%3 == 1 { // the other table first
		g.PrecomputeForScalarMultiplication()
		rec.Class("single table first")
	}
	g.PrecomputeForDoubleScalarMultiplication()
	if c.Pre%4 == 3 {
		g.PrecomputeForDoubleScalarMultiplication()
	}
	if c.Pre >= 18 {
		g.PrecomputeForScalarMultiplication()
	}
	if !g.IsPrecomputedForDoubleScalarMultiplication() {
		return fmt.Errorf("precomputation is not reported")
	}
	base := xc.Ed25519Group.BASE_POINT()
	ea, eb := encF(c.A), encF(c.B)
	r, err := xc.VX.GDoubleMul(base, g, ea, eb)
	if err != nil {
		return err
	}
	want := new(ed.Point).Subtract(ref.MulBase(ref.ModL(c.B)), ed.ScalarMultBits(c.A, p))
	if err := first(eqAff("b*B - a*A", r, xc.P2, ref.AffOf(want)), same("a", ea.Raw, c.A), same("b", eb.Raw, c.B)); err != nil {
		return err
	}
	r, err = xc.VX.GDoubleMul(base, g, ea, eb)
	if err != nil {
		return err
	}
	return first(eqAff("b*B - a*A again", r, xc.P2, ref.AffOf(want)), eqAff("the point afterwards", g, xc.P3, ref.AffOf(p)))
}

// ---------- G04 ----------

// checkTable compares every lookup with the multiples.
func checkTable(g *xc.Ed25519GroupElement, p *ed.Point, positions []int) error {
	q := new(ed.Point).Set(p)
	at := 0
	for _, pos := range positions {
		for ; at < pos*8; at++ {
			q.Add(q, q)
		}
		m := ed.NewIdentityPoint()
		for b := 0; b <= 8; b++ {
			a := ref.AffOf(m)
			for _, s := range []int{b, -b} {
				r, err := g.Select(pos, s)
				if err != nil {
					return fmt.Errorf("lookup (%d, %d): %v", pos, s, err)
				}
				if err := eqAff(fmt.Sprintf("lookup (%d, %d)", pos, s), r, xc.PRECOMPUTED, a); err != nil {
					return err
				}
				a = ref.NegAff(a)
			}
			m.Add(m, q)
		}
	}
	return nil
}

func allPositions() []int {
	p := make([]int, 32)
	for i := range p {
		p[i] = i
	}
	return p
}

func checkG04any(c mulCase, rec *Rec) error {
	rec.NT()
	rec.Class("%s, %s", c.P.kind(), c.R.kind())
	p := c.P.Point()
	a := ref.AffOf(p)
	g := c.R.hold(a, xc.P3)
	g.PrecomputeForScalarMultiplication()
	rec.Class("precomputed %s", precompute(g, c.Pre))
	if err := checkTable(g, p, allPositions()); err != nil {
		return err
	}
	g.PrecomputeForScalarMultiplication()
	if err := checkTable(g, p, []int{0, c.Pre % 32}); err != nil {
		return fmt.Errorf("after precomputing again: %v", err)
	}
	return eqAff("the point afterwards", g, xc.P3, a)
}

type baseTabCase struct{ Pos, Pre int }

func checkG04base(c baseTabCase, rec *Rec) error {
	rec.NT()
	g := xc.Ed25519Group.BASE_POINT()
	rec.Class("precomputed %s", precompute(g, c.Pre))
	if err := checkTable(g, ref.BasePoint, []int{c.Pos}); err != nil {
		return err
	}
	b, err := encodeG(g)
	if err != nil {
		return err
	}
	return first(same("base point", b, ref.BasePoint.Bytes()), eqAff("base point", g, xc.P3, ref.AffOf(ref.BasePoint)))
}

// ---------- G05 ----------

type eqCase struct {
	P, Q     Pt
	Rp, Rq   Rep
	Rel      int
	CSp, CSq int
	Share    int // above 0: equal factors up to sign, equal coordinates are one object
}

func checkG05eq(c eqCase, rec *Rec) error {
	p, q, rel := pairPtCase{P: c.P, Q: c.Q, Rel: c.Rel}.points()
	if c.Rel == 5 { // the other point with the same y, or close by
		a := ref.AffOf(p)
		q, rel = ref.PointOf(ref.NegAff(a)), "opposite"
	}
	ap, aq := ref.AffOf(p), ref.AffOf(q)
	if c.Share > 0 {
		c.Rq = c.Rp.flip(c.Share)
		if aq = ap; c.Share&4 != 0 {
			aq.X = modP(new(big.Int).Neg(ap.X))
		}
		if c.Share&8 != 0 {
			aq.Y = modP(new(big.Int).Neg(ap.Y))
		}
		rel = "shared coordinates"
	}
	eq := ap.X.Cmp(aq.X) == 0 && ap.Y.Cmp(aq.Y) == 0
	g, h := c.Rp.holdAny(ap, c.CSp, 0), c.Rq.holdAny(aq, c.CSq, 0)
	if c.Share > 0 {
		unify(g, h)
	}
	l, r := xc.CoordinateSystem(c.CSp), xc.CoordinateSystem(c.CSq)
	odd := l < xc.P2 || r < xc.P2 || l > xc.CACHED || r > xc.CACHED
	decided := !odd && l == r || r == xc.P3 && (l == xc.P2 || l == xc.CACHED) || r == xc.P1xP1 && (l == xc.P2 || l == xc.P3)
	rec.Class("systems %d, %d", c.CSp, c.CSq)
	rec.Class("%s: equal %v", rel, eq)
	if decided {
		rec.NT()
	}
	var got bool
	if refused := try(func() { got = g.Equals(h) }); refused {
		if !odd {
			return fmt.Errorf("comparing points in systems %d and %d panics", l, r)
		}
		rec.Class("refused")
		got = false
	}
	if got && !eq {
		return fmt.Errorf("different points (%s) in systems %d and %d compare equal", rel, l, r)
	}
	if decided && !got && eq {
		return fmt.Errorf("equal points in systems %d and %d compare different", l, r)
	}
	if decided && l == r && h.Equals(g) != got {
		return fmt.Errorf("comparison in system %d is not symmetric", l)
	}
	if decided && !g.Equals(g) {
		return fmt.Errorf("a point in system %d differs from itself", l)
	}
	// encodings
	ep, eq2 := encG(ref.EncodeAff(ap)), encG(ref.EncodeAff(aq))
	if ep.Equals(eq2) != eq {
		return fmt.Errorf("encodings compare %v", !eq)
	}
	if odd {
		return nil
	}
	return first(eqAff("left point afterwards", g, l, ap), eqAff("right point afterwards", h, r, aq))
}

type memberCase struct {
	X, Y Hex
	R    Rep
	CS   int
}

func genMember(t *rapid.T) memberCase {
	c := memberCase{R: genRep(t), CS: int(rapid.SampledFrom([]xc.CoordinateSystem{xc.P2, xc.P3, xc.P1xP1}).Draw(t, "cs"))}
	a := ref.AffOf(genPt(t).Point())
	switch rapid.IntRange(0, 10).Draw(t, "how") {
	case 0, 1, 2:
	case 9, 10:
		a = nearCurve(t)
	case 3: // swapped
		a.X, a.Y = a.Y, a.X
	case 4: // near
		a.X = modP(new(big.Int).Add(a.X, bi(rapid.SampledFrom([]int64{-19, -2, -1, 1, 2, 19}).Draw(t, "off"))))
	case 5:
		a.Y = modP(new(big.Int).Xor(a.Y, new(big.Int).Lsh(ref.One, uint(rapid.IntRange(0, 254).Draw(t, "bit")))))
	case 6: // times a root of one: points of the untwisted curve
		a.X = mulP(a.X, ref.SqrtM1)
	case 7:
		a.Y = mulP(a.Y, ref.SqrtM1)
	default:
		a.X, a.Y = modP(genInt(t, 255)), modP(genInt(t, 255))
	}
	c.X, c.Y = leB(a.X, 32), leB(a.Y, 32)
	return c
}

func checkG05member(c memberCase, rec *Rec) error {
	a := ref.Aff{X: modP(ref.LE(c.X)), Y: modP(ref.LE(c.Y))}
	on := ref.OnCurve(a)
	rec.Class("system %d, on the curve %v", c.CS, on)
	rec.NT()
	g := c.R.hold(a, xc.CoordinateSystem(c.CS))
	if g.SatisfiesCurveEquation() != on {
		return fmt.Errorf("(%x, %x) in system %d: membership %v, curve equation %v", a.X, a.Y, c.CS, !on, on)
	}
	b := g.SatisfiesCurveEquation()
	if b != on {
		return fmt.Errorf("membership changes when asked again")
	}
	return nil
}

// ---------- G06 ----------

// refCase is an operation on points held in coordinate systems that may or may not suit it.
type refCase struct {
	P, Q     Pt
	Rp, Rq   Rep
	CSp, CSq int
	Op, To   int
	Junk     uint64 // value of a T coordinate the system does not use, 0 for none
	Share    bool   // equal coordinates are one object
}

type gElem = xc.Ed25519GroupElement

// holdAny is hold, also for systems that do not exist and with a meaningless T coordinate.
func (r Rep) holdAny(a ref.Aff, cs int, junk uint64) *gElem {
	var g *gElem
	if cs >= 0 && cs <= int(xc.CACHED) {
		g = r.hold(a, xc.CoordinateSystem(cs))
	} else {
		h := r.hold(a, xc.P3)
		return xc.NewEd25519GroupElement(xc.CoordinateSystem(cs), h.X, h.Y, h.Z, h.T)
	}
	if g.T == nil && junk != 0 {
		t := fe(limbsOf(new(big.Int).SetUint64(junk), sumIn, 0))
		return xc.NewEd25519GroupElement(xc.CoordinateSystem(cs), g.X, g.Y, g.Z, &t)
	}
	return g
}

type refOp struct {
	name   string
	binary bool
	left   []xc.CoordinateSystem
	right  []xc.CoordinateSystem
	bound  func() bool
	run    func(g, h *gElem, to int) (any, error)
	want   func(a, b ref.Aff) ref.Aff
}

func refOps() []refOp {
	x := &xc.VX
	cs := func(c ...xc.CoordinateSystem) []xc.CoordinateSystem { return c }
	yes := func() bool { return true }
	id := func(a, b ref.Aff) ref.Aff { return a }
	dbl := func(a, b ref.Aff) ref.Aff { return ref.AddAff(a, a) }
	neg := func(a, b ref.Aff) ref.Aff { return ref.NegAff(a) }
	add := func(a, b ref.Aff) ref.Aff { return ref.AddAff(a, b) }
	sub := func(a, b ref.Aff) ref.Aff { return ref.AddAff(a, ref.NegAff(b)) }
	return []refOp{
		{"Encode", false, cs(xc.P2, xc.P3, xc.P1xP1), nil, yes, func(g, h *gElem, to int) (any, error) { b, err := encodeG(g); return b, err }, id},
		{"SatisfiesCurveEquation", false, cs(xc.P2, xc.P3, xc.P1xP1), nil, yes, func(g, h *gElem, to int) (any, error) { return g.SatisfiesCurveEquation(), nil }, id},
		{"toP2", false, cs(xc.P2, xc.P3, xc.P1xP1), nil, func() bool { return x.GToP2 != nil }, func(g, h *gElem, to int) (any, error) { return x.GToP2(g), nil }, id},
		{"toP3", false, cs(xc.P3, xc.P1xP1), nil, func() bool { return x.GToP3 != nil }, func(g, h *gElem, to int) (any, error) { return x.GToP3(g), nil }, id},
		{"toCached", false, cs(xc.P3, xc.CACHED), nil, func() bool { return x.GToCached != nil }, func(g, h *gElem, to int) (any, error) { return x.GToCached(g), nil }, id},
		{"dbl", false, cs(xc.P2, xc.P3), nil, func() bool { return x.GDbl != nil }, func(g, h *gElem, to int) (any, error) { return x.GDbl(g), nil }, dbl},
		{"negate", false, cs(xc.P3), nil, func() bool { return x.GNeg != nil }, func(g, h *gElem, to int) (any, error) { return x.GNeg(g) }, neg},
		{"add", true, cs(xc.P3), cs(xc.CACHED), func() bool { return x.GAdd != nil }, func(g, h *gElem, to int) (any, error) { return x.GAdd(g, h), nil }, add},
		{"subtract", true, cs(xc.P3), cs(xc.CACHED), func() bool { return x.GSub != nil }, func(g, h *gElem, to int) (any, error) { return x.GSub(g, h), nil }, sub},
		{"precomputedAdd", true, cs(xc.P3), cs(xc.PRECOMPUTED), func() bool { return x.GPreAdd != nil }, func(g, h *gElem, to int) (any, error) { return x.GPreAdd(g, h) }, add},
		{"precomputedSubtract", true, cs(xc.P3), cs(xc.PRECOMPUTED), func() bool { return x.GPreSub != nil }, func(g, h *gElem, to int) (any, error) { return x.GPreSub(g, h), nil }, sub},
		{"MathUtils.AddGroupElements", true, cs(xc.P2, xc.P3), cs(xc.P2, xc.P3), yes, func(g, h *gElem, to int) (any, error) { return xc.MathUtils.AddGroupElements(g, h), nil }, add},
		{"MathUtils.DoubleGroupElement", false, cs(xc.P2, xc.P3), nil, yes, func(g, h *gElem, to int) (any, error) { return xc.MathUtils.DoubleGroupElement(g), nil }, dbl},
		{"MathUtils.NegateGroupElement", false, cs(xc.P3), nil, yes, func(g, h *gElem, to int) (any, error) { return xc.MathUtils.NegateGroupElement(g), nil }, neg},
		{"MathUtils.ToRepresentation", false, cs(xc.AFFINE, xc.P2, xc.P3, xc.P1xP1, xc.PRECOMPUTED, xc.CACHED), nil, yes, func(g, h *gElem, to int) (any, error) {
			r, err := xc.MathUtils.ToRepresentation(g, xc.CoordinateSystem(to))
			return r, err
		}, id},
		{"lookup after precomputing", false, cs(xc.P3), nil, yes, func(g, h *gElem, to int) (any, error) {
			g.PrecomputeForScalarMultiplication()
			return g.Select(0, 1)
		}, id},
		{"precomputing for two scalars", false, cs(xc.P3), nil, yes, func(g, h *gElem, to int) (any, error) {
			g.PrecomputeForDoubleScalarMultiplication()
			if !g.IsPrecomputedForDoubleScalarMultiplication() {
				return nil, fmt.Errorf("not precomputed")
			}
			return g, nil
		}, id},
	}
}

func inSys(cs int, l []xc.CoordinateSystem) bool {
	for _, c := range l {
		if int(c) == cs {
			return true
		}
	}
	return false
}

const numRefOps = 17

func genRefCase(t *rapid.T) refCase {
	sys := func(n string) int {
		if rapid.IntRange(0, 7).Draw(t, n+"odd") == 0 {
			return rapid.SampledFrom([]int{-1, 6, 7, 255, -1 << 31}).Draw(t, n)
		}
		return rapid.IntRange(0, 5).Draw(t, n)
	}
	c := refCase{P: genPt(t), Q: genPt(t), Rp: genRep(t), Rq: genRep(t), CSp: sys("left"), CSq: sys("right"), Op: rapid.IntRange(0, numRefOps-1).Draw(t, "op"), To: sys("to")}
	if rapid.Bool().Draw(t, "junk") {
		c.Junk = rapid.Uint64().Draw(t, "T")
	}
	if rapid.IntRange(0, 3).Draw(t, "sharing") == 0 {
		c.Share, c.Rq = true, c.Rp.flip(rapid.IntRange(0, 3).Draw(t, "flip"))
		if rapid.Bool().Draw(t, "same") {
			c.Q = c.P
		}
	}
	return c
}

func checkG06(c refCase, rec *Rec) error {
	ops := refOps()
	if len(ops) != numRefOps {
		panic(harnessError("number of operations"))
	}
	op := ops[c.Op]
	if !op.bound() {
		rec.Class("%s cannot be reached", op.name)
		return nil
	}
	a, b := ref.AffOf(c.P.Point()), ref.AffOf(c.Q.Point())
	g, h := c.Rp.holdAny(a, c.CSp, c.Junk), c.Rq.holdAny(b, c.CSq, c.Junk)
	if c.Share {
		unify(g, h)
	}
	ok := inSys(c.CSp, op.left) && (!op.binary || inSys(c.CSq, op.right))
	if op.name == "MathUtils.ToRepresentation" && (c.To < 0 || c.To > 5) {
		ok = false
	}
	var r any
	var err error
	bad := try(func() { r, err = op.run(g, h, c.To) }) || err != nil
	what := fmt.Sprintf("%s in system %d", op.name, c.CSp)
	if op.binary {
		what += fmt.Sprintf(" with one in %d", c.CSq)
	}
	rec.Class("%s: suits %v, refused %v", op.name, ok, bad)
	if !ok {
		rec.NT()
	}
	// the operands stay what they were, refused or not
	still := func() error {
		for i, e := range []*gElem{g, h} {
			cs, want, r := c.CSp, a, c.Rp
			if i == 1 {
				cs, want, r = c.CSq, b, c.Rq
			}
			n := r.holdAny(want, cs, c.Junk)
			if int(e.GetCoordinateSystem()) != cs {
				return fmt.Errorf("%s: operand %d is now in system %d", what, i, e.GetCoordinateSystem())
			}
			for j, f := range [][2]*xc.Ed25519FieldElement{{e.X, n.X}, {e.Y, n.Y}, {e.Z, n.Z}, {e.T, n.T}} {
				if (f[0] == nil) != (f[1] == nil) || f[0] != nil && val(f[0].Raw).Cmp(val(f[1].Raw)) != 0 {
					return fmt.Errorf("%s: coordinate %d of operand %d has changed", what, j, i)
				}
			}
		}
		return nil
	}
	if err := still(); err != nil {
		return err
	}
	if bad {
		if ok {
			return fmt.Errorf("%s: refused (%v), though it is defined", what, err)
		}
		if g.IsPrecomputedForDoubleScalarMultiplication() {
			return fmt.Errorf("%s: refused, but the point now counts as precomputed", what)
		}
		// asking again gets no further
		bad = try(func() { r, err = op.run(g, h, c.To) }) || err != nil
		if err := still(); err != nil {
			return err
		}
		if bad {
			return nil
		}
		what += " after a refusal"
		if op.name == "precomputing for two scalars" {
			return fmt.Errorf("%s: accepted", what)
		}
	}
	want := op.want(a, b)
	switch v := r.(type) {
	case []byte:
		return same(what, v, ref.EncodeAff(want))
	case bool:
		if !v {
			return fmt.Errorf("%s: a curve point is said to lie off the curve", what)
		}
	case *gElem:
		if v == nil {
			return fmt.Errorf("%s: neither a point nor an error", what)
		}
		cs := v.GetCoordinateSystem()
		if cs < 0 || cs > xc.CACHED {
			return fmt.Errorf("%s: result in system %d", what, cs)
		}
		if op.name == "MathUtils.ToRepresentation" && int(cs) != c.To {
			return fmt.Errorf("%s: result in system %d instead of %d", what, cs, c.To)
		}
		return eqAff(what, v, cs, want)
	default:
		panic(harnessError("kind of result"))
	}
	return nil
}

func init() {
	all := []xc.CoordinateSystem{xc.P2, xc.P3, xc.P1xP1}
	register(&Prop{ID: "G01", Facets: []*Facet{
		afterFailures(400, 20000, "decode"),
		refilled(10000, 300000, false, "encoded-point", "point"),
		F("decode", "every case", 60000, 2000000, genEncPt, checkG01dec, encPtCase{make([]byte, 32)}, encPtCase{bytes.Repeat([]byte{0xff}, 32)}),
		F("lengths", "every case", 2000, 40000, func(t *rapid.T) encPtCase {
			n := rapid.IntRange(0, 70).Draw(t, "n")
			return encPtCase{append(ref.BasePoint.Bytes(), make([]byte, 64)...)[:n]}
		}, checkG01dec),
		F("encode", "every case: any point in any scaling", 60000, 2000000, genRepCase(all...), checkG01enc),
	}})
	register(&Prop{ID: "G02", Facets: []*Facet{
		F("two-points", "every case", 30000, 1000000, genPairPt, checkG02pair),
		F("one-point", "every case", 30000, 1000000, genRepCase(xc.P3), checkG02one, repCase{Pt{make([]byte, 32), 0}, Rep{}, 2}),
		F("chains", "every case", 6000, 200000, genPtProg, checkG02prog),
	}})
	genMul := func(bits int) func(t *rapid.T) mulCase {
		return func(t *rapid.T) mulCase {
			return mulCase{genPt(t), genRep(t), genScalar(t, bits), genScalar(t, bits), rapid.IntRange(0, 19).Draw(t, "pre")}
		}
	}
	genBase := func(t *rapid.T) mulCase {
		return mulCase{Pt{make([]byte, 32), 0}, Rep{}, genScalar(t, 255), genScalar(t, 255), rapid.IntRange(0, 19).Draw(t, "pre")}
	}
	zero := Hex(make([]byte, 32))
	top := leB(new(big.Int).Sub(new(big.Int).Lsh(ref.One, 255), ref.One), 32)
	top2 := leB(new(big.Int).Sub(new(big.Int).Lsh(ref.One, 253), ref.One), 32)
	register(&Prop{ID: "G03", Facets: []*Facet{
		F("base-point", "every case", 20000, 600000, genBase, checkG03base, mulCase{Pt{zero, 0}, Rep{}, zero, top, 0}, mulCase{Pt{zero, 0}, Rep{}, top, top, 3}),
		F("any-point", "every case", 2500, 60000, genMul(255), checkG03any, mulCase{Pt{zero, 1}, Rep{}, zero, top, 0}, mulCase{Pt{zero, 0}, Rep{}, leB(ref.L, 32), top, 2}),
		F("two-scalars", "every case", 15000, 400000, genMul(253), checkG03double, mulCase{Pt{zero, 1}, Rep{}, zero, zero, 0}, mulCase{Pt{zero, 3}, Rep{}, top2, top2, 0}, mulCase{Pt{zero, 3}, Rep{}, top2, zero, 0}, mulCase{Pt{zero, 3}, Rep{}, zero, top2, 0}),
	}, Assumptions: []string{"scalar multiplication is unexported and reached through an overlay file; where it cannot be bound the case is counted but says nothing"}})
	var baseTab []baseTabCase
	for i := 0; i < 32; i++ {
		for j := 0; j < 5; j++ {
			baseTab = append(baseTab, baseTabCase{i, j})
		}
	}
	register(&Prop{ID: "G04", Facets: []*Facet{
		F("base-point", "every case (all positions and digits are enumerated)", 0, 1000, func(t *rapid.T) baseTabCase {
			return baseTabCase{rapid.IntRange(0, 31).Draw(t, "pos"), rapid.IntRange(0, 4).Draw(t, "pre")}
		}, checkG04base, baseTab...),
		F("any-point", "every case (all positions and digits)", 1600, 40000, genMul(255), checkG04any, mulCase{Pt{zero, 0}, Rep{}, zero, zero, 0}, mulCase{Pt{zero, 1}, Rep{}, zero, zero, 2}),
	}})
	css := []xc.CoordinateSystem{xc.P2, xc.P3, xc.P1xP1, xc.PRECOMPUTED, xc.CACHED}
	register(&Prop{ID: "G05", Facets: []*Facet{
		refilled(10000, 300000, false, "point"),
		F("equality", "the two systems are comparable", 100000, 3000000, func(t *rapid.T) eqCase {
			c := eqCase{genPt(t), genPt(t), genRep(t), genRep(t), rapid.IntRange(0, 7).Draw(t, "rel"), 0, 0, 0}
			if rapid.IntRange(0, 3).Draw(t, "sharing") == 0 {
				c.Share = rapid.IntRange(1, 31).Draw(t, "share")
			}
			c.CSp = int(rapid.SampledFrom(css).Draw(t, "left"))
			if rapid.Bool().Draw(t, "samecs") {
				c.CSq = c.CSp
			} else {
				c.CSq = int(rapid.SampledFrom(css).Draw(t, "right"))
			}
			if rapid.IntRange(0, 9).Draw(t, "oddsys") == 0 {
				odd := func() int { return rapid.SampledFrom([]int{-1, 0, 0, 0, 6, 100}).Draw(t, "odd") }
				if c.CSp = odd(); rapid.Bool().Draw(t, "both") {
					c.CSq = c.CSp
				}
				if rapid.Bool().Draw(t, "swap") {
					c.CSp, c.CSq = c.CSq, c.CSp
				}
			}
			if c.Rel > 0 && rapid.IntRange(0, 2).Draw(t, "equal") == 0 {
				c.Rel = 0
			}
			return c
		}, checkG05eq),
		F("membership", "every case", 60000, 2000000, genMember, checkG05member, memberCase{zero, zero, Rep{}, 1}),
	}})
	var grid []refCase
	for op := 0; op < numRefOps; op++ {
		for l := -1; l <= 6; l++ {
			for r := -1; r <= 6; r++ {
				grid = append(grid, refCase{P: Pt{top2, 0}, Q: Pt{leB(bi(7), 32), 1}, CSp: l, CSq: r, To: r, Op: op, Junk: uint64(op+l+r+3) % 3 * 77})
			}
		}
	}
	register(&Prop{ID: "G06", Facets: []*Facet{
		F("operands", "an operand's system does not suit the operation (all pairs of systems are enumerated)", 30000, 1000000, genRefCase, checkG06, grid...),
	}, Assumptions: []string{"a refusal is an error or a panic; a right result in a system beyond the documented ones is accepted"}})
}

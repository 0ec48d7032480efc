package main

import (
	"fmt"
	"math/big"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

// ---------- M01 ----------

type mathBytes struct{ B Blob }

func eqInt(what string, got, want *big.Int) error {
	if got == nil || got.Cmp(want) != 0 {
		return fmt.Errorf("%s: got %x want %x", what, got, want)
	}
	return nil
}

func checkM01bytes(c mathBytes, rec *Rec) error {
	b := c.B.Bytes()
	rec.Class("%s", lenClass(len(b)))
	if len(b) > 0 {
		rec.NT()
	}
	in := dup(b)
	if err := first(eqInt("integer", xc.MathUtils.BytesToBigInteger(in), ref.LE(b)), same("argument", in, b)); err != nil {
		return err
	}
	if len(b) == 32 || len(b) == 64 {
		e := encF(b)
		if err := first(eqInt("integer of the encoded element", xc.MathUtils.EncodedFieldToBigInteger(e), ref.LE(b)), same("encoded element", e.Raw, b)); err != nil {
			return err
		}
	}
	return nil
}

type mathLimbs struct{ L Limbs }

func checkM01limbs(c mathLimbs, rec *Rec) error {
	rec.NT()
	f := fe(c.L)
	if err := first(eqInt("integer of limbs", xc.MathUtils.IntsToBigInteger(c.L), raw(c.L)), eqInt("integer of the element", xc.MathUtils.FieldToBigInteger(&f), val(c.L))); err != nil {
		return err
	}
	if f.Raw != c.L {
		return fmt.Errorf("limbs changed")
	}
	return nil
}

type mathInt struct {
	V   string
	Neg bool
}

func genMathInt(t *rapid.T) mathInt {
	v := genInt(t, rapid.SampledFrom([]int{8, 64, 250, 255, 256, 256, 257, 300, 600}).Draw(t, "bits"))
	return mathInt{v.Text(16), rapid.IntRange(0, 7).Draw(t, "neg") == 0}
}

// try runs f and tells whether it refused with a panic.
func try(f func()) (refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	f()
	return
}

func checkM01int(c mathInt, rec *Rec) error {
	v, _ := new(big.Int).SetString(c.V, 16)
	if c.Neg {
		v.Neg(v)
	}
	rec.NT()
	in := new(big.Int).Set(v)
	fits := v.Sign() >= 0 && v.BitLen() <= 256
	rec.Class("fits 32 bytes %v", fits)
	var b []byte
	var e *xc.Ed25519EncodedFieldElement
	rb := try(func() { b = xc.MathUtils.ToByteArray(in) })
	re := try(func() { e = xc.MathUtils.ToEncodedFieldElement(in) })
	if !fits {
		rf := try(func() { xc.MathUtils.ToFieldElement(in) })
		if !rb || !re || !rf {
			return fmt.Errorf("%x does not fit but is accepted (bytes %v, encoded %v, element %v)", v, !rb, !re, !rf)
		}
		return nil
	}
	if rb || re {
		return fmt.Errorf("%x is refused", v)
	}
	if err := first(same("bytes", b, ref.ToLE(v, 32)), same("encoded element", e.Raw, ref.ToLE(v, 32)), eqInt("back from bytes", xc.MathUtils.BytesToBigInteger(b), v)); err != nil {
		return err
	}
	if v.BitLen() <= 255 {
		rec.Class("below p %v", v.Cmp(ref.P) < 0)
		f := xc.MathUtils.ToFieldElement(in)
		m := new(big.Int).Mod(v, ref.P)
		if err := first(eqVal("element", f.Raw, m), eqInt("back from the element", xc.MathUtils.FieldToBigInteger(f), m), eqInt("back from the limbs modulo p", modP(xc.MathUtils.IntsToBigInteger(f.Raw)), m)); err != nil {
			return err
		}
	}
	return eqInt("argument", in, v)
}

func checkM01point(c encPtCase, rec *Rec) error {
	rec.Class("%s", pubClass(c.B))
	rec.NT()
	want := ref.Decode(c.B)
	in := dup(c.B)
	g, err := xc.MathUtils.ToGroupElement(in)
	if err := same("argument", in, c.B); err != nil {
		return err
	}
	y := ref.LE(c.B)
	neg := y.Bit(255) == 1
	y.SetBit(y, 255, 0)
	yy := new(big.Int).Set(y)
	x, xerr := xc.MathUtils.GetAffineXFromAffineY(yy, neg)
	if err := eqInt("y", yy, y); err != nil {
		return err
	}
	if want == nil {
		if err == nil || g != nil || xerr == nil || x != nil {
			return fmt.Errorf("no point with this y, but %v %v %v %v", g != nil, err, x, xerr)
		}
		return nil
	}
	if err != nil || xerr != nil {
		return fmt.Errorf("point %x refused: %v, %v", in, err, xerr)
	}
	a := ref.AffOf(want)
	dec, derr := encG(c.B).Decode()
	if derr != nil {
		return derr
	}
	return first(eqAff("point from bytes", g, xc.P3, a), eqAff("decoded point", dec, xc.P3, a), eqInt("x", x, a.X))
}

type convCase struct {
	P    Pt
	R    Rep
	From int
	To   int
}

func checkM01conv(c convCase, rec *Rec) error {
	rec.Class("%d to %d", c.From, c.To)
	rec.Class("%s, %s", c.P.kind(), c.R.kind())
	rec.NT()
	a := ref.AffOf(c.P.Point())
	from, to := xc.CoordinateSystem(c.From), xc.CoordinateSystem(c.To)
	g := c.R.hold(a, from)
	r, err := xc.MathUtils.ToRepresentation(g, to)
	if err != nil {
		return err
	}
	if err := eqAff("converted", r, to, a); err != nil {
		return err
	}
	back, err := xc.MathUtils.ToRepresentation(r, from)
	if err != nil {
		return err
	}
	return first(eqAff("converted back", back, from, a), eqAff("original", g, from, a))
}

// ---------- M02 ----------

type mathPair struct {
	pairPtCase
	CSp, CSq int
}

func checkM02add(c mathPair, rec *Rec) error {
	p, q, rel := c.points()
	rec.Class("%s", rel)
	rec.Class("%s + %s", c.P.kind(), c.Q.kind())
	rec.NT()
	ap, aq := ref.AffOf(p), ref.AffOf(q)
	csp, csq := xc.CoordinateSystem(c.CSp), xc.CoordinateSystem(c.CSq)
	g, h := c.Rp.hold(ap, csp), c.Rq.hold(aq, csq)
	g3 := c.Rp.hold(ap, xc.P3)
	rec.Class("systems %d, %d", c.CSp, c.CSq)
	before := fmt.Sprint(limbsOfPoint(g), limbsOfPoint(h), limbsOfPoint(g3))
	if err := first(
		eqAff("sum", xc.MathUtils.AddGroupElements(g, h), xc.P3, ref.AddAff(ap, aq)),
		eqAff("sum the other way round", xc.MathUtils.AddGroupElements(h, g), xc.P3, ref.AddAff(ap, aq)),
		eqAff("double", xc.MathUtils.DoubleGroupElement(g), xc.P3, ref.AddAff(ap, ap)),
		eqAff("negated", xc.MathUtils.NegateGroupElement(g3), xc.P3, ref.NegAff(ap))); err != nil {
		return err
	}
	if xc.VX.GAdd != nil {
		fast := toP3(xc.VX.GAdd(g3, c.Rq.hold(aq, xc.CACHED)))
		if !fast.Equals(xc.MathUtils.AddGroupElements(g, h)) {
			return fmt.Errorf("fast addition differs")
		}
	}
	if after := fmt.Sprint(limbsOfPoint(g), limbsOfPoint(h), limbsOfPoint(g3)); after != before {
		return fmt.Errorf("operands changed from %s to %s", before, after)
	}
	return nil
}

func limbsOfPoint(g *xc.Ed25519GroupElement) (r []Limbs) {
	for _, c := range []*xc.Ed25519FieldElement{g.X, g.Y, g.Z, g.T} {
		if c != nil {
			r = append(r, c.Raw)
		}
	}
	return
}

type mathMul struct {
	P, Q   Pt
	Rp, Rq Rep
	F, G   Limbs
	Cs     bool
}

func checkM02mul(c mathMul, rec *Rec) error {
	rec.NT()
	rec.Class("%s, %s", c.P.kind(), c.Rp.kind())
	p := c.P.Point()
	cs := xc.P3
	if c.Cs {
		cs = xc.P2
	}
	g := c.Rp.hold(ref.AffOf(p), cs)
	before := limbsOfPoint(g)
	f := fe(c.F)
	r := xc.MathUtils.ScalarMultiplyGroupElement(g, f)
	want := ed.ScalarMultBits(ref.ToLE(val(c.F), 32), p)
	if err := eqAff("multiple", r, xc.P3, ref.AffOf(want)); err != nil {
		return err
	}
	if fmt.Sprint(before) != fmt.Sprint(limbsOfPoint(g)) || f.Raw != c.F {
		return fmt.Errorf("operands changed")
	}
	return nil
}

func checkM02double(c mathMul, rec *Rec) error {
	if xc.VX.UDoubleMul == nil {
		return nil
	}
	rec.NT()
	p, q := c.P.Point(), c.Q.Point()
	g, h := c.Rp.hold(ref.AffOf(p), xc.P3), c.Rq.hold(ref.AffOf(q), xc.P3)
	r := xc.VX.UDoubleMul(g, fe(c.F), h, fe(c.G))
	want := new(ed.Point).Subtract(ed.ScalarMultBits(ref.ToLE(val(c.F), 32), p), ed.ScalarMultBits(ref.ToLE(val(c.G), 32), q))
	return first(eqAff("f*p - g*q", r, xc.P3, ref.AffOf(want)), eqAff("p", g, xc.P3, ref.AffOf(p)), eqAff("q", h, xc.P3, ref.AffOf(q)))
}

func checkM02ints(c scalCase, rec *Rec) error {
	e := encF(c.A)
	v := ref.LE(c.A)
	if v.Cmp(ref.L) >= 0 {
		rec.NT()
	}
	want := ref.ToLE(new(big.Int).Mod(v, ref.L), 32)
	if err := first(same("residue", xc.MathUtils.ReduceModGroupOrder(e).Raw, want), same("argument", e.Raw, c.A)); err != nil {
		return err
	}
	if xc.VX.ModQ != nil && len(c.A) == 64 {
		if err := same("residue of the fast reduction", xc.VX.ModQ(e).Raw, want); err != nil {
			return err
		}
	}
	if xc.VX.UMulAdd == nil || len(c.A) != 32 {
		return nil
	}
	ea, eb, ec := encF(c.A), encF(c.B), encF(c.C)
	sameObjects(&ea, &eb, &ec, c, rec)
	v.Mul(v, ref.LE(c.B)).Add(v, ref.LE(c.C)).Mod(v, ref.L)
	if err := first(same("a*b+c", xc.VX.UMulAdd(ea, eb, ec).Raw, ref.ToLE(v, 32)), same("a", ea.Raw, c.A), same("b", eb.Raw, c.B), same("c", ec.Raw, c.C)); err != nil {
		return err
	}
	if xc.VX.MulAddQ != nil {
		return same("a*b+c, fast", xc.VX.MulAddQ(ea, eb, ec).Raw, ref.ToLE(v, 32))
	}
	return nil
}

type fracCase struct{ X, Y, Z, T, D string }

// the fraction (x*y + z*t) / d of the addition formula
func checkM02frac(c fracCase, rec *Rec) error {
	rec.NT()
	n := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
	x, y, z, t, d := n(c.X), n(c.Y), n(c.Z), n(c.T), n(c.D)
	want := new(big.Int).Mul(n(c.X), n(c.Y))
	want.Add(want, new(big.Int).Mul(n(c.Z), n(c.T)))
	want.Mul(want, inv(modP(n(c.D)))).Mod(want, ref.P)
	if err := eqInt("(x*y+z*t)/d", xc.MathUtils.XMulY_Plus_ZMulT_DelD(*x, y, z, t, d), want); err != nil {
		return err
	}
	return first(eqInt("x", x, n(c.X)), eqInt("y", y, n(c.Y)), eqInt("z", z, n(c.Z)), eqInt("t", t, n(c.T)), eqInt("d", d, n(c.D)))
}

func init() {
	css := []xc.CoordinateSystem{xc.AFFINE, xc.P2, xc.P3, xc.P1xP1, xc.PRECOMPUTED, xc.CACHED}
	p3 := []xc.CoordinateSystem{xc.P2, xc.P3}
	register(&Prop{ID: "M01", Facets: []*Facet{
		F("bytes", "at least one byte", 60000, 2000000, func(t *rapid.T) mathBytes {
			if rapid.Bool().Draw(t, "usual") {
				return mathBytes{genBlobN(t, rapid.SampledFrom([]int{32, 64}).Draw(t, "n"))}
			}
			return mathBytes{genBlob(t, 200)}
		}, checkM01bytes),
		F("limbs", "every case", 150000, 5000000, func(t *rapid.T) mathLimbs { return mathLimbs{genLimbs(t, encIn)} }, checkM01limbs),
		F("integers", "every case", 100000, 3000000, genMathInt, checkM01int, mathInt{"0", false}, mathInt{"1", true}),
		F("points", "every case", 20000, 600000, genEncPt, checkM01point, encPtCase{make([]byte, 32)}),
		F("conversions", "every case", 60000, 2000000, func(t *rapid.T) convCase {
			return convCase{genPt(t), genRep(t), int(rapid.SampledFrom(css).Draw(t, "from")), int(rapid.SampledFrom(css).Draw(t, "to"))}
		}, checkM01conv),
	}})
	register(&Prop{ID: "M02", Facets: []*Facet{
		F("addition", "every case", 30000, 1000000, func(t *rapid.T) mathPair {
			return mathPair{genPairPt(t), int(rapid.SampledFrom(p3).Draw(t, "left")), int(rapid.SampledFrom(p3).Draw(t, "right"))}
		}, checkM02add),
		F("multiples", "every case", 700, 20000, func(t *rapid.T) mathMul {
			return mathMul{P: genPt(t), Rp: genRep(t), F: limbsOf(genInt(t, 255), sumIn, rapid.Uint64().Draw(t, "s")), Cs: rapid.Bool().Draw(t, "p2")}
		}, checkM02mul),
		F("two-scalars", "every case", 200, 6000, func(t *rapid.T) mathMul {
			return mathMul{genPt(t), genPt(t), genRep(t), genRep(t), limbsOf(genInt(t, 255), sumIn, rapid.Uint64().Draw(t, "s")), limbsOf(genInt(t, 255), sumIn, rapid.Uint64().Draw(t, "s")), false}
		}, checkM02double),
		F("scalars", "the first integer is at least L", 100000, 3000000, func(t *rapid.T) scalCase {
			if rapid.Bool().Draw(t, "long") {
				return scalCase{A: leB(genInt(t, 512), 64)}
			}
			return genMulAdd(t)
		}, checkM02ints),
		F("fraction", "every case", 60000, 2000000, func(t *rapid.T) fracCase {
			n := func() string { return genInt(t, 255).Text(16) }
			c := fracCase{n(), n(), n(), n(), n()}
			if modP(func() *big.Int { v, _ := new(big.Int).SetString(c.D, 16); return v }()).Sign() == 0 {
				c.D = "1"
			}
			return c
		}, checkM02frac),
	}})
}

package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- limbs ----------

type Limbs = [10]int64

var limbPos = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// limit gives the bound of limb i for a bound of f*2^25 on the even limbs.
func limit(f float64, i int) int64 {
	b := f * (1 << 25)
	if i%2 == 1 {
		b /= 2
	}
	return int64(b)
}

const (
	tight  = 1.01 // of 2^25: products, squares
	sumIn  = 1.1  // operands of sums
	mulIn  = 3.3  // operands of products (1.65 * 2^26)
	encIn  = 4.0  // operands of the encoding (below 2^27)
	sumOut = 2.2
)

func within(l Limbs, f float64) bool {
	for i, v := range l {
		if b := limit(f, i); v > b || v < -b {
			return false
		}
	}
	return true
}

func raw(l Limbs) *big.Int {
	r := new(big.Int)
	for i := 9; i >= 0; i-- {
		v := big.NewInt(l[i])
		r.Add(r, v.Lsh(v, limbPos[i]))
	}
	return r
}

func val(l Limbs) *big.Int { v := raw(l); return v.Mod(v, ref.P) }

func genLimbs(t *rapid.T, f float64) Limbs {
	var l Limbs
	kind := rapid.IntRange(0, 7).Draw(t, "limbkind")
	m := mix(0)
	if kind > 0 {
		m = mix(rapid.Uint64().Draw(t, "seed"))
	}
	some := uint64(1<<10 - 1) // the limbs in use
	if kind >= 6 {
		some = 0
		for n := m.next()%3 + 1; n > 0; n-- {
			some |= 1 << (m.next() % 10)
		}
		if m.next()%4 == 0 { // the low ones
			some = 1<<(m.next()%10) - 1
		}
	}
	for i := range l {
		if some>>i&1 == 0 {
			continue
		}
		b := limit(f, i)
		if f == encIn {
			b = 1<<27 - 1 // the same bound for all limbs
		}
		w := int64(1) << (25 + (i+1)%2)
		r := int64(m.next() >> 1)
		switch kind {
		case 0: // drawn one by one
			l[i] = rapid.Int64Range(-b, b).Draw(t, "limb")
		case 1: // all at the bounds
			l[i] = b
			if r&1 == 1 {
				l[i] = -b
			}
		case 2: // bounds, zero, around powers of two
			c := []int64{0, b, -b, 1, -1, w / 2, -w / 2, w/2 - 1, w - 1, w, -w, 19, -19, w - 19, b - 1}
			l[i] = c[r%int64(len(c))]
			if l[i] > b || l[i] < -b {
				l[i] %= b + 1
			}
		case 3: // all equal sign, near the bound
			l[i] = b - r%(b/50)
			if m&1 == 1 {
				l[i] = -l[i]
			}
		case 6: // few limbs, of any magnitude
			l[i] = (r % (2*b + 1)) >> (m.next() % 28)
			if m.next()%4 == 0 { // just below the bound
				l[i] = b - l[i]%(b+1)
			}
			if m.next()%2 == 0 {
				l[i] = -l[i]
			}
			if l[i] > b || l[i] < -b {
				l[i] %= b + 1
			}
		default:
			l[i] = r%(2*b+1) - b
		}
	}
	return l
}

// limbsOf finds limbs of v modulo p within f*2^25, chosen by seed among the possible ones.
// Seed 0 is the plain reduced form.
func limbsOf(v *big.Int, f float64, seed uint64) Limbs {
	if seed == 0 {
		return decode(leB(new(big.Int).Mod(v, ref.P), 32)).Raw
	}
	m := mix(seed)
	for try := 0; try < 40; try++ {
		r := new(big.Int).Mod(v, ref.P)
		k := int64(m.next()%9) - 4
		r.Add(r, new(big.Int).Mul(big.NewInt(k), ref.P))
		var l Limbs
		ok := true
		for i := 0; i < 10 && ok; i++ {
			if i == 9 {
				ok = r.IsInt64()
				if ok {
					l[9] = r.Int64()
					b := limit(f, 9)
					ok = l[9] <= b && l[9] >= -b
				}
				break
			}
			w := int64(1) << (25 + (i+1)%2)
			b := limit(f, i)
			low := new(big.Int).Mod(r, big.NewInt(w)).Int64()
			var c []int64
			for d := int64(-4); d <= 3; d++ {
				if x := low + d*w; x <= b && x >= -b {
					c = append(c, x)
				}
			}
			l[i] = c[m.next()%uint64(len(c))]
			r.Sub(r, big.NewInt(l[i])).Rsh(r, uint(25+(i+1)%2))
		}
		if ok {
			return l
		}
	}
	return decode(leB(new(big.Int).Mod(v, ref.P), 32)).Raw
}

func fe(l Limbs) xc.Ed25519FieldElement { return xc.Ed25519FieldElement{Raw: l} }

func decode(b []byte) *xc.Ed25519FieldElement {
	e, err := xc.NewEd25519EncodedFieldElement(dup(b))
	if err != nil {
		panic(err)
	}
	return e.Decode()
}

func modP(v *big.Int) *big.Int { return v.Mod(v, ref.P) }

func eqVal(what string, got Limbs, want *big.Int) error {
	if g := val(got); g.Cmp(want) != 0 {
		return fmt.Errorf("%s: got %x want %x (limbs %v)", what, g, want, got)
	}
	return nil
}

// ---------- F01 ----------

type fieldCase struct{ A, B Limbs }

func checkF01(c fieldCase, rec *Rec) error {
	a, b := val(c.A), val(c.B)
	if a.Sign() == 0 {
		rec.Class("a = 0 mod p")
	}
	x := &xc.VX
	if x.FMul == nil && x.FSq == nil && x.FAdd == nil && x.FSub == nil {
		return nil
	}
	rec.NT()
	isA, isB := within(c.A, sumIn), within(c.B, sumIn)
	var err error
	prod := func(what string, got xc.Ed25519FieldElement, want *big.Int) error {
		if !within(got.Raw, tight) {
			return fmt.Errorf("%s: limbs %v exceed the documented bounds", what, got.Raw)
		}
		return eqVal(what, got.Raw, modP(want))
	}
	if x.FMul != nil {
		err = first(err, prod("a*b", x.FMul(fe(c.A), fe(c.B)), new(big.Int).Mul(a, b)), prod("b*a", x.FMul(fe(c.B), fe(c.A)), new(big.Int).Mul(a, b)))
	}
	if x.FSq != nil {
		err = first(err, prod("a^2", x.FSq(fe(c.A)), new(big.Int).Mul(a, a)))
	}
	if x.FSqDbl != nil {
		v := new(big.Int).Mul(a, a)
		err = first(err, prod("2a^2", x.FSqDbl(fe(c.A)), v.Add(v, v)))
	}
	if isA && isB {
		rec.Class("sums")
		if x.FAdd != nil {
			err = first(err, eqVal("a+b", x.FAdd(fe(c.A), fe(c.B)).Raw, modP(new(big.Int).Add(a, b))))
			if r := x.FAdd(fe(c.A), fe(c.B)).Raw; !within(r, sumOut) {
				err = first(err, fmt.Errorf("a+b: limbs %v exceed the documented bounds", r))
			}
		}
		if x.FSub != nil {
			err = first(err, eqVal("a-b", x.FSub(fe(c.A), fe(c.B)).Raw, modP(new(big.Int).Sub(a, b))))
			if r := x.FSub(fe(c.A), fe(c.B)).Raw; !within(r, sumOut) {
				err = first(err, fmt.Errorf("a-b: limbs %v exceed the documented bounds", r))
			}
		}
		if x.FNeg != nil {
			err = first(err, eqVal("-a", x.FNeg(fe(c.A)).Raw, modP(new(big.Int).Neg(a))))
			if r := x.FNeg(fe(c.A)).Raw; !within(r, sumIn) {
				err = first(err, fmt.Errorf("-a: limbs %v exceed the documented bounds", r))
			}
		}
	} else {
		rec.Class("wide limbs")
	}
	return err
}

func checkF01inv(c fieldCase, rec *Rec) error {
	a := val(c.A)
	want := new(big.Int)
	if a.Sign() != 0 {
		want.ModInverse(a, ref.P)
	} else {
		rec.Class("zero")
	}
	if xc.VX.FInv == nil {
		return nil
	}
	rec.NT()
	got := xc.VX.FInv(fe(c.A))
	if !within(got.Raw, tight) {
		return fmt.Errorf("limbs of the inverse %v exceed the documented bounds", got.Raw)
	}
	return eqVal("1/a", got.Raw, want)
}

type fieldOp struct{ Op, I, J int }

type fieldProg struct {
	Init []Limbs
	Ops  []fieldOp
}

var fieldOps = []string{"mul", "mul", "mul", "sq", "sqdbl", "add", "add", "sub", "sub", "neg", "inv", "recode"}

func genFieldProg(t *rapid.T) fieldProg {
	var c fieldProg
	for i := 0; i < 3; i++ {
		c.Init = append(c.Init, genLimbs(t, sumIn))
	}
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, fieldOp{rapid.IntRange(0, len(fieldOps)-1).Draw(t, "op"), rapid.IntRange(0, 2).Draw(t, "i"), rapid.IntRange(0, 2).Draw(t, "j")})
	}
	return c
}

// checkF01prog runs straight-line programs, reducing by a product where the
// documented bounds ask for it and nowhere else.
func checkF01prog(c fieldProg, rec *Rec) error {
	x := &xc.VX
	if x.FMul == nil || x.FSq == nil || x.FSqDbl == nil || x.FAdd == nil || x.FSub == nil || x.FNeg == nil || x.FInv == nil {
		return nil
	}
	rec.NT()
	var f [3]xc.Ed25519FieldElement
	var v [3]*big.Int
	var bound [3]float64
	for i, l := range c.Init {
		f[i], v[i], bound[i] = fe(l), val(l), sumIn
	}
	one := fe(Limbs{1})
	fit := func(i int, max float64) {
		if bound[i] > max {
			f[i], bound[i] = x.FMul(f[i], one), tight
		}
	}
	for n, o := range c.Ops {
		i, j := o.I, o.J
		op := fieldOps[o.Op]
		switch op {
		case "mul":
			fit(i, mulIn)
			fit(j, mulIn)
			f[i], v[i], bound[i] = x.FMul(f[i], f[j]), modP(new(big.Int).Mul(v[i], v[j])), tight
		case "sq":
			fit(j, mulIn)
			f[i], v[i], bound[i] = x.FSq(f[j]), modP(new(big.Int).Mul(v[j], v[j])), tight
		case "sqdbl":
			fit(j, mulIn)
			w := new(big.Int).Mul(v[j], v[j])
			f[i], v[i], bound[i] = x.FSqDbl(f[j]), modP(w.Add(w, w)), tight
		case "add":
			fit(i, sumIn)
			fit(j, sumIn)
			f[i], v[i], bound[i] = x.FAdd(f[i], f[j]), modP(new(big.Int).Add(v[i], v[j])), bound[i]+bound[j]
		case "sub":
			fit(i, sumIn)
			fit(j, sumIn)
			f[i], v[i], bound[i] = x.FSub(f[i], f[j]), modP(new(big.Int).Sub(v[i], v[j])), bound[i]+bound[j]
		case "neg":
			fit(j, sumIn)
			f[i], v[i], bound[i] = x.FNeg(f[j]), modP(new(big.Int).Neg(v[j])), bound[j]
		case "inv":
			fit(j, mulIn)
			w := new(big.Int)
			if v[j].Sign() != 0 {
				w.ModInverse(v[j], ref.P)
			}
			f[i], v[i], bound[i] = x.FInv(f[j]), w, tight
		case "recode":
			f[i], bound[i] = *f[j].Encode().Decode(), sumIn
			v[i] = v[j]
		}
		if err := eqVal(fmt.Sprintf("step %d (%s)", n, op), f[i].Raw, v[i]); err != nil {
			return err
		}
		if err := same(fmt.Sprintf("encoding after step %d (%s)", n, op), f[i].Encode().Raw, ref.ToLE(v[i], 32)); err != nil {
			return err
		}
	}
	return nil
}

// ---------- F02 ----------

func checkF02enc(c fieldCase, rec *Rec) error {
	rec.NT()
	v := val(c.A)
	want := ref.ToLE(v, 32)
	f := fe(c.A)
	e := f.Encode()
	if err := first(same("encoding", e.Raw, want), spent("encoding again", f.Encode().Raw, want), spent("encoding once more", f.Encode().Raw, want), same("encoding afterwards", e.Raw, want), same("low bits of the decoded encoding", ref.ToLE(val(e.Decode().Raw), 32), want)); err != nil {
		return err
	}
	if f.Raw != c.A {
		return fmt.Errorf("encoding changes the element")
	}
	if f.IsNonZero() != (v.Sign() != 0) || e.IsNonZero() != (v.Sign() != 0) {
		return fmt.Errorf("zero test of %x: %v, encoded %v", v, f.IsNonZero(), e.IsNonZero())
	}
	if f.IsNegative() != (v.Bit(0) == 1) || e.IsNegative() != (v.Bit(0) == 1) {
		return fmt.Errorf("sign of %x: %v, encoded %v", v, f.IsNegative(), e.IsNegative())
	}
	if f.String() != hex.EncodeToString(want) || e.String() != hex.EncodeToString(want) {
		return fmt.Errorf("printed as %s / %s", f.String(), e.String())
	}
	// another element: same value or not
	w := val(c.B)
	g := fe(c.B)
	if f.Equals(&g) != (v.Cmp(w) == 0) || g.Equals(&f) != (v.Cmp(w) == 0) || e.Equals(g.Encode()) != (v.Cmp(w) == 0) {
		return fmt.Errorf("equality of %x and %x: %v %v %v", v, w, f.Equals(&g), g.Equals(&f), e.Equals(g.Encode()))
	}
	rec.Class("equal values %v, equal limbs %v", v.Cmp(w) == 0, c.A == c.B)
	return nil
}

func genSameVal(t *rapid.T) fieldCase {
	v := genInt(t, 255)
	c := fieldCase{limbsOf(v, encIn, rapid.Uint64().Draw(t, "s1")), Limbs{}}
	switch rapid.IntRange(0, 3).Draw(t, "near") {
	case 0: // differs in one limb, minimally
		c.B = c.A
		c.B[rapid.IntRange(0, 9).Draw(t, "i")] ^= 1
	case 1: // differs in the value by a power of two
		w := new(big.Int).Lsh(ref.One, uint(rapid.IntRange(0, 254).Draw(t, "bit")))
		c.B = limbsOf(w.Add(w, v), encIn, rapid.Uint64().Draw(t, "s2"))
	default:
		c.B = limbsOf(v, encIn, rapid.Uint64().Draw(t, "s2"))
	}
	return c
}

type fbytesCase struct{ B Hex }

func genFieldBytes(t *rapid.T) fbytesCase {
	if rapid.Bool().Draw(t, "int") {
		b := leB(genInt(t, 256), 32)
		return fbytesCase{b}
	}
	return fbytesCase{genBytes32(t)}
}

func checkF02dec(c fbytesCase, rec *Rec) error {
	rec.NT()
	e, err := xc.NewEd25519EncodedFieldElement(dup(c.B))
	if len(c.B) != 32 && len(c.B) != 64 {
		rec.Class("wrong length")
		if err == nil || e != nil {
			return fmt.Errorf("encoded element of %d bytes accepted", len(c.B))
		}
		return nil
	}
	if err != nil {
		return err
	}
	if len(c.B) == 64 {
		rec.Class("long")
		if e.IsNonZero() != !bytes.Equal(c.B, make([]byte, 64)) {
			return fmt.Errorf("zero test of a long element")
		}
		return nil
	}
	v := ref.LE(c.B)
	v.SetBit(v, 255, 0)
	rec.Class("canonical %v", v.Cmp(ref.P) < 0 && c.B[31] < 0x80)
	f := e.Decode()
	modP(v)
	if err := first(eqVal("decoded", f.Raw, v), same("re-encoded", f.Encode().Raw, ref.ToLE(v, 32)), same("argument", e.Raw, c.B)); err != nil {
		return err
	}
	if f.IsNonZero() != (v.Sign() != 0) || f.IsNegative() != (v.Bit(0) == 1) {
		return fmt.Errorf("decoded %x: nonzero %v negative %v", v, f.IsNonZero(), f.IsNegative())
	}
	if e.IsNonZero() != !bytes.Equal(c.B, make([]byte, 32)) || e.IsNegative() != (c.B[0]&1 == 1) {
		return fmt.Errorf("encoded %x: nonzero %v negative %v", []byte(c.B), e.IsNonZero(), e.IsNegative())
	}
	return nil
}

// ---------- F03 ----------

// sqrtFrac is u v^3 (u v^7)^((p-5)/8).
func sqrtFrac(u, v *big.Int) *big.Int {
	v3 := modP(new(big.Int).Mul(modP(new(big.Int).Mul(v, v)), v))
	v7 := modP(new(big.Int).Mul(modP(new(big.Int).Mul(v3, v3)), v))
	e := new(big.Int).Sub(ref.P, bi(5))
	r := new(big.Int).Exp(new(big.Int).Mul(u, v7), e.Rsh(e, 3), ref.P)
	return modP(r.Mul(r, modP(v3.Mul(v3, u))))
}

func checkF03(c fieldCase, rec *Rec) error {
	rec.NT()
	u, v := val(c.A), val(c.B)
	p := ref.P
	want := sqrtFrac(u, v)
	got := xc.Ed25519FieldElementSqrt(fe(c.A), fe(c.B))
	if !within(got.Raw, tight) {
		return fmt.Errorf("limbs of the root %v exceed the documented bounds", got.Raw)
	}
	if err := eqVal("root", got.Raw, want); err != nil {
		return err
	}
	x := val(got.Raw)
	vx2 := modP(x.Mul(x, x).Mul(x, v))
	sq := big.Jacobi(modP(new(big.Int).Mul(u, v)), p)
	neg := modP(new(big.Int).Neg(u))
	hit := vx2.Cmp(u) == 0 || vx2.Cmp(neg) == 0
	switch {
	case v.Sign() == 0:
		rec.Class("v = 0")
	case u.Sign() == 0:
		rec.Class("u = 0")
		if want.Sign() != 0 || !hit {
			return fmt.Errorf("root of zero is %x", want)
		}
	default:
		rec.Class("square %v", sq == 1)
		if hit != (sq == 1) { // -1 is a square modulo p
			return fmt.Errorf("v*x^2 = +-u is %v, u/v square is %v", hit, sq == 1)
		}
	}
	return nil
}

func genSqrt(t *rapid.T) fieldCase {
	c := fieldCase{genLimbs(t, mulIn), genLimbs(t, mulIn)}
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0: // a true square, its negative
		w := genInt(t, 255)
		u := modP(new(big.Int).Mul(new(big.Int).Mul(w, w), val(c.B)))
		if rapid.Bool().Draw(t, "neg") {
			modP(u.Neg(u))
		}
		c.A = limbsOf(u, mulIn, rapid.Uint64().Draw(t, "s"))
	case 1: // the values of point decoding
		y := genInt(t, 255)
		y2 := modP(new(big.Int).Mul(y, y))
		u := new(big.Int).Sub(y2, ref.One)
		v := new(big.Int).Mul(y2, ref.D)
		v.Add(v, ref.One)
		c.A, c.B = limbsOf(u, mulIn, rapid.Uint64().Draw(t, "s")), limbsOf(v, mulIn, rapid.Uint64().Draw(t, "s"))
	case 2: // special values in any representation
		sp := func() Limbs {
			v := genInt(t, 256)
			if rapid.Bool().Draw(t, "special") {
				v = rapid.SampledFrom([]*big.Int{bi(0), bi(1), bi(2), bi(-1), ref.SqrtM1, ref.D, ref.P, new(big.Int).Neg(ref.SqrtM1)}).Draw(t, "v")
			}
			return limbsOf(v, mulIn, rapid.Uint64().Draw(t, "s"))
		}
		c.A, c.B = sp(), sp()
	}
	return c
}

// ---------- Q01 ----------

type scalCase struct{ A, B, C Hex }

func encF(b []byte) *xc.Ed25519EncodedFieldElement {
	e, err := xc.NewEd25519EncodedFieldElement(dup(b))
	if err != nil {
		panic(err)
	}
	return e
}

func checkQ01mod(c scalCase, rec *Rec) error {
	v := ref.LE(c.A)
	if v.Cmp(ref.L) >= 0 && xc.VX.ModQ != nil {
		rec.NT()
	}
	if xc.VX.ModQ == nil {
		return nil
	}
	e := encF(c.A)
	got := xc.VX.ModQ(e)
	return first(same("residue", got.Raw, ref.ToLE(v.Mod(v, ref.L), 32)), same("argument", e.Raw, c.A))
}

func checkQ01muladd(c scalCase, rec *Rec) error {
	a, b, d := ref.LE(c.A), ref.LE(c.B), ref.LE(c.C)
	big3 := 0
	for _, v := range []*big.Int{a, b, d} {
		if v.Cmp(ref.L) >= 0 {
			big3++
		}
	}
	rec.Class("%d arguments above L", big3)
	v := new(big.Int).Mul(a, b)
	v.Add(v, d)
	if v.Cmp(ref.L) >= 0 && xc.VX.MulAddQ != nil {
		rec.NT()
	}
	if xc.VX.MulAddQ == nil {
		return nil
	}
	ea, eb, ec := encF(c.A), encF(c.B), encF(c.C)
	sameObjects(&ea, &eb, &ec, c, rec)
	got := xc.VX.MulAddQ(ea, eb, ec)
	return first(same("a*b+c", got.Raw, ref.ToLE(v.Mod(v, ref.L), 32)), same("a", ea.Raw, c.A), same("b", eb.Raw, c.B), same("c", ec.Raw, c.C))
}

// sameObjects makes operands of equal value one object, mostly.
func sameObjects(a, b, c **xc.Ed25519EncodedFieldElement, v scalCase, rec *Rec) {
	if len(v.A) == 0 || (v.A[0]^v.B[0]^v.C[0])&3 == 0 {
		return
	}
	if bytes.Equal(v.B, v.C) {
		*c = *b
		rec.Class("one object twice")
	}
	if bytes.Equal(v.A, v.B) {
		*b = *a
		rec.Class("one object twice")
	}
	if bytes.Equal(v.A, v.C) {
		*c = *a
		rec.Class("one object twice")
	}
}

func genMulAdd(t *rapid.T) scalCase {
	c := scalCase{leB(genInt(t, 256), 32), leB(genInt(t, 256), 32), leB(genInt(t, 256), 32)}
	switch rapid.IntRange(0, 11).Draw(t, "equal") {
	case 0:
		c.C = c.B
		return c
	case 1:
		c.B = c.A
		return c
	case 2:
		c.C = c.A
		return c
	case 3:
		c.B, c.C = c.A, c.A
		return c
	}
	if rapid.IntRange(0, 3).Draw(t, "near") == 0 { // the result close to 0 or L
		a, b := ref.LE(c.A), ref.LE(c.B)
		v := new(big.Int).Mul(a, b)
		v.Neg(v).Add(v, bi(rapid.Int64Range(-2, 2).Draw(t, "off"))).Mod(v, ref.L)
		v.Add(v, new(big.Int).Mul(ref.L, bi(rapid.Int64Range(0, 14).Draw(t, "k"))))
		c.C = leB(v, 32)
	}
	return c
}

// ---------- H01 ----------

type hashCase struct {
	Data Blob
	Cuts []int // split points of the variadic hash
	Nil  []bool
}

func genHash(max int) func(t *rapid.T) hashCase {
	return func(t *rapid.T) hashCase {
		c := hashCase{Data: genBlob(t, max)}
		if max > 20000 {
			c.Data = genBlobN(t, genLong(t, max/8, max))
		}
		if e := rareOr(t, rapid.SampledFrom([]string{"sha256", "keccak", "sha3256", "sha3512", "ripemd"}).Draw(t, "digest"), 12); e != nil && max < 20000 {
			c.Data = literal(e.A)
		}
		n := rapid.IntRange(0, 6).Draw(t, "ncuts")
		if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
			n = genLen(t, 140)
		}
		for i := 0; i < n; i++ {
			c.Cuts = append(c.Cuts, rapid.IntRange(0, c.Data.Len).Draw(t, "cut"))
			c.Nil = append(c.Nil, rapid.Bool().Draw(t, "nil"))
		}
		return c
	}
}

func checkH01(c hashCase, rec *Rec) error {
	data := c.Data.Bytes()
	rec.Class("%s", lenClass(len(data)))
	rec.Class("%s parts", lenClass(len(c.Cuts)+1))
	rec.NT()
	in := dup(data)
	if len(in) == 0 && len(c.Cuts)%2 == 1 {
		in = nil
	}
	type hf struct {
		name string
		f    func([]byte) ([]byte, error)
		want []byte
	}
	s256 := sha256.Sum256(data)
	s3 := sha3.Sum256(data)
	for _, h := range []hf{
		{"SHA-256", xc.HashesSha_256, s256[:]},
		{"SHA3-256", xc.HashesSha3_256, s3[:]},
		{"Keccak-256", xc.HashesKeccak_256, ref.Keccak256(data)},
		{"RIPEMD-160", xc.HashesRipemd160, ref.RIPEMD160(data)},
	} {
		got, err := h.f(in)
		if err != nil {
			return fmt.Errorf("%s of %d bytes: %v", h.name, len(data), err)
		}
		if err := spent(fmt.Sprintf("%s of %d bytes", h.name, len(data)), got, h.want); err != nil {
			return err
		}
		again, err := h.f(in)
		if err != nil || !bytes.Equal(again, h.want) {
			return fmt.Errorf("%s gives another digest the second time", h.name)
		}
	}
	want := sha3.Sum512(data)
	// split
	cuts := append([]int{}, c.Cuts...)
	sort.Ints(cuts)
	var parts [][]byte
	at := 0
	for i, k := range append(cuts, len(data)) {
		p := in[at:k]
		if k == at && i < len(c.Nil) && c.Nil[i] {
			p = nil
		}
		parts = append(parts, p)
		at = k
	}
	// the parts lie apart, the memory behind each has other content
	var apart [][]byte
	for _, p := range parts {
		b := append(dup(p), bytes.Repeat([]byte{0xa5}, 40)...)
		apart = append(apart, b[:len(p)])
	}
	for i, ps := range [][][]byte{parts, {in}, append([][]byte{nil}, parts...), append(append([][]byte{}, parts...), []byte{}), apart} {
		before := append([][]byte{}, ps...)
		got, err := xc.HashesSha3_512(ps...)
		if err != nil {
			return err
		}
		for j, p := range ps {
			if len(p) != len(before[j]) || (p == nil) != (before[j] == nil) || !bytes.Equal(p, before[j]) {
				return fmt.Errorf("SHA3-512 in %d parts changes part %d of the slice it was given", len(ps), j)
			}
			if i == 4 && !bytes.Equal(p[len(p):cap(p)][:40], bytes.Repeat([]byte{0xa5}, 40)) {
				return fmt.Errorf("SHA3-512 in %d parts writes behind part %d", len(ps), j)
			}
		}
		if err := spent(fmt.Sprintf("SHA3-512 of %d bytes in %d parts (way %d, cuts %v)", len(data), len(ps), i, cuts), got, want[:]); err != nil {
			return err
		}
	}
	if len(data) == 0 {
		got, err := xc.HashesSha3_512()
		if err != nil || !bytes.Equal(got, want[:]) {
			return fmt.Errorf("SHA3-512 of nothing: %x %v", got, err)
		}
	}
	return same("input after hashing", in, data)
}

func init() {
	wide := func(t *rapid.T) fieldCase { return fieldCase{genLimbs(t, mulIn), genLimbs(t, mulIn)} }
	var max, min, emax, emin, smax Limbs
	for i := range max {
		max[i], min[i] = limit(mulIn, i), -limit(mulIn, i)
		emax[i], emin[i] = 1<<27-1, -(1<<27 - 1)
		smax[i] = limit(sumIn, i)
	}
	register(&Prop{ID: "F01", Facets: []*Facet{
		F("wide", "every case: limbs up to the bounds of products", 1200000, 10000000, wide, checkF01, fieldCase{max, max}, fieldCase{max, min}, fieldCase{min, min}),
		F("narrow", "every case: limbs up to the bounds of sums", 1200000, 10000000, func(t *rapid.T) fieldCase { return fieldCase{genLimbs(t, sumIn), genLimbs(t, sumIn)} }, checkF01, fieldCase{smax, smax}),
		F("values", "every case: boundary values in any representation", 600000, 4000000, func(t *rapid.T) fieldCase {
			return fieldCase{limbsOf(genInt(t, 256), mulIn, rapid.Uint64().Draw(t, "s1")), limbsOf(genInt(t, 256), mulIn, rapid.Uint64().Draw(t, "s2"))}
		}, checkF01),
		F("inverse", "every case", 200000, 2000000, func(t *rapid.T) fieldCase {
			c := wide(t)
			if rapid.IntRange(0, 2).Draw(t, "value") == 0 {
				c.A = limbsOf(genInt(t, 256), mulIn, rapid.Uint64().Draw(t, "s"))
			}
			return fieldCase{A: c.A}
		}, checkF01inv, fieldCase{}, fieldCase{A: limbsOf(ref.P, mulIn, 3)}, fieldCase{A: limbsOf(ref.P, mulIn, 4)}),
		F("programs", "every case", 60000, 500000, genFieldProg, checkF01prog),
	}, Assumptions: []string{"limb bounds are those documented at the operations: sums 1.1*2^25, products 1.65*2^26, halved at odd limbs"}})
	register(&Prop{ID: "F02", Facets: []*Facet{
		refilled(40000, 1000000, false, "field", "encoded-field"),
		F("encode", "every case: limbs up to 2^27", 1000000, 8000000, func(t *rapid.T) fieldCase { return fieldCase{genLimbs(t, encIn), genLimbs(t, encIn)} }, checkF02enc, fieldCase{emax, emin}),
		F("same-value", "every case: two representations of equal or close values", 600000, 5000000, genSameVal, checkF02enc),
		F("decode", "every case", 800000, 8000000, genFieldBytes, checkF02dec),
		F("lengths", "every case", 5000, 100000, func(t *rapid.T) fbytesCase {
			n := rapid.SampledFrom([]int{0, 1, 31, 32, 33, 63, 64, 65, 128}).Draw(t, "n")
			b := genBlobN(t, n).Bytes()
			return fbytesCase{b}
		}, checkF02dec, fbytesCase{make([]byte, 64)}),
	}})
	register(&Prop{ID: "F03", Facets: []*Facet{
		F("root", "every case", 300000, 2000000, genSqrt, checkF03, fieldCase{Limbs{}, Limbs{1}}, fieldCase{Limbs{}, Limbs{}}, fieldCase{Limbs{1}, Limbs{}}),
	}})
	ff64 := Hex(bytes.Repeat([]byte{0xff}, 64))
	ff := ff64[:32]
	register(&Prop{ID: "Q01", Facets: []*Facet{
		refilled(40000, 1000000, false, "encoded-field"),
		overlapping(40000, 2000000, "scalars"),
		F("reduce", "the integer is at least L", 2000000, 20000000, func(t *rapid.T) scalCase { return scalCase{A: leB(genInt(t, 512), 64)} }, checkQ01mod, scalCase{A: ff64}, scalCase{A: make([]byte, 64)}),
		F("multiply-add", "the exact result is at least L", 2000000, 20000000, genMulAdd, checkQ01muladd, scalCase{ff, ff, ff}),
	}})
	var every []hashCase
	for n := 0; n <= 600; n++ {
		every = append(every, hashCase{Data: Blob{Len: n, Kind: "random", Seed: uint64(n)}, Cuts: []int{n / 3, n / 2}, Nil: []bool{false, true}})
	}
	register(&Prop{ID: "H01", Facets: []*Facet{
		refilled(40000, 1000000, false, "hash"),
		overlapping(40000, 2000000, "hash"),
		F("digests", "every case", 200000, 1000000, genHash(6000), checkH01, every...),
		F("long", "every case", 1000, 6000, genHash(400000), checkH01, hashCase{Data: Blob{Len: 1<<20 + 1, Kind: "random", Seed: 4}, Cuts: []int{1 << 19, 1 << 20}}, hashCase{Data: Blob{Len: 5<<20 + 7, Kind: "random", Seed: 5}, Cuts: []int{3, 1 << 21}}),
	}})
}

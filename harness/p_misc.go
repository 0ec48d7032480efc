package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// ---------- R01 ----------

// randCase is a sequence of calls of the random helpers on one source.
type randCase struct {
	Src   Source
	Calls []randCall
}
type randCall struct {
	What string
	N    int
}

var randKinds = []string{"bytes", "int64", "encoded", "group", "encgroup", "field"}

func genRand(t *rapid.T) randCase {
	c := randCase{Src: genSource(t)}
	if rapid.IntRange(0, 3).Draw(t, "failing") == 0 {
		c.Src = genFailingSource(t, 200)
		c.Src.Heal = rapid.Bool().Draw(t, "heal")
	}
	if rapid.IntRange(0, 2).Draw(t, "fixed") == 0 {
		var fixed []byte
		n := rapid.IntRange(1, 3).Draw(t, "nfixed")
		for i := 0; i < n; i++ {
			fixed = append(fixed, genPubBytes(t)...)
		}
		if rapid.IntRange(0, 3).Draw(t, "stream") == 0 {
			fixed = genStream(t, 32*n)
		}
		c.Src.Fixed = fixed
	}
	n := rapid.IntRange(1, 6).Draw(t, "ncalls")
	for i := 0; i < n; i++ {
		k := randCall{What: rapid.SampledFrom(randKinds).Draw(t, "what")}
		switch k.What {
		case "bytes":
			k.N = genLenUp(t, 2000)
		case "encoded":
			k.N = rapid.SampledFrom([]int{32, 64, 32, 64, 32, 64, 0, 31, 33, 63, 65, 128}).Draw(t, "n")
		}
		c.Calls = append(c.Calls, k)
	}
	return c
}

func checkR01(c randCase, rec *Rec) error {
	src := c.Src.reader()
	if c.Src.End >= 0 {
		rec.Class("failing source")
	} else if c.Src.Chunks != nil {
		rec.Class("split reads")
	}
	var err error
	withRand(src, func() {
		for i, k := range c.Calls {
			from, failures := src.pos, src.Failed
			var got []byte
			var g *xc.Ed25519GroupElement
			var f xc.Ed25519FieldElement
			refused := try(func() {
				switch k.What {
				case "bytes":
					got = xc.MathUtils.GetRandomByteArray(k.N)
				case "int64":
					got = binary.LittleEndian.AppendUint64(nil, uint64(xc.MathUtils.GetRandomInt64()))
				case "encoded":
					got = xc.MathUtils.GetRandomEncodedFieldElement(k.N).Raw
				case "group":
					g = xc.MathUtils.GetRandomGroupElement()
				case "encgroup":
					got = xc.MathUtils.GetRandomEncodedGroupElement().Raw
				case "field":
					f = xc.MathUtils.GetRandomFieldElement()
				}
			})
			used := src.pos - from
			failed := src.Failed > failures
			rec.Class("%s refused %v", k.What, refused)
			if used > 0 {
				rec.NT()
			}
			what := fmt.Sprintf("call %d (%s %d, %d bytes of the source used, source failed %v)", i, k.What, k.N, used, failed)
			if k.What == "encoded" && k.N != 32 && k.N != 64 {
				if !refused {
					err = fmt.Errorf("%s: length accepted", what)
				}
				continue
			}
			if refused {
				if !failed {
					err = fmt.Errorf("%s: refused", what)
					return
				}
				continue
			}
			delivered := src.at(from, used)
			switch k.What {
			case "bytes":
				err = first(sized(what, got, k.N), same(what, got, delivered))
			case "int64":
				err = same(what, got, delivered)
			case "encoded":
				if err = sized(what, got, k.N); err == nil && used == k.N {
					want := dup(delivered)
					want[31] &= 0x7f
					err = same(what, got, want)
				} else if err == nil {
					err = fmt.Errorf("%s: %d bytes came from elsewhere", what, k.N-used)
				}
			case "group":
				err = randomPoint(what, g, delivered)
			case "encgroup":
				if err = sized(what, got, 32); err == nil {
					p := ref.Decode(got)
					switch {
					case p == nil:
						err = fmt.Errorf("%s: %x is no point", what, got)
					case !bytes.Equal(p.Bytes(), got):
						err = fmt.Errorf("%s: %x is not the canonical encoding", what, got)
					default:
						err = fromWindow(what, got, delivered)
					}
				}
			case "field":
				if !within(f.Raw, sumIn) {
					err = fmt.Errorf("%s: limbs %v out of bounds", what, f.Raw)
				} else if used < 10 {
					err = fmt.Errorf("%s: too little randomness", what)
				}
			}
			if err != nil {
				return
			}
		}
	})
	return err
}

func sized(what string, b []byte, n int) error {
	if len(b) != n {
		return fmt.Errorf("%s: %d bytes instead of %d", what, len(b), n)
	}
	return nil
}

func randomPoint(what string, g *xc.Ed25519GroupElement, delivered []byte) error {
	a, err := affine(g, xc.P3)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if !ref.OnCurve(a) {
		return fmt.Errorf("%s: not on the curve", what)
	}
	return fromWindow(what, ref.EncodeAff(a), delivered)
}

// fromWindow: the point is one that 32 consecutive bytes of the source encode.
func fromWindow(what string, enc, delivered []byte) error {
	for i := len(delivered) - 32; i >= 0; i-- {
		if p := ref.Decode(delivered[i : i+32]); p != nil && bytes.Equal(p.Bytes(), enc) {
			return nil
		}
	}
	return fmt.Errorf("%s: %x does not come from the source", what, enc)
}

// randFieldCase: two sources have to give different field elements.
type randFieldCase struct{ A, B Source }

func checkR01field(c randFieldCase, rec *Rec) error {
	draw := func(s Source) (l []Limbs) {
		withRand(s.reader(), func() {
			for i := 0; i < 4; i++ {
				l = append(l, xc.MathUtils.GetRandomFieldElement().Raw)
			}
		})
		return
	}
	if c.A.Seed == c.B.Seed {
		return nil
	}
	rec.NT()
	all := append(draw(c.A), draw(c.B)...)
	constant := true
	seen := map[Limbs]bool{}
	for _, l := range all {
		for _, v := range l {
			constant = constant && v == 1<<24
		}
		seen[l] = true
	}
	if constant {
		return rec.Known("R01", "constant-field-element", fmt.Errorf("every random field element has all limbs 2^24"))
	}
	if len(seen) != len(all) {
		return fmt.Errorf("%d different field elements in %d drawn: %v", len(seen), len(all), all)
	}
	return nil
}

// ---------- T01 ----------

type textCase struct {
	L  [4]Limbs
	Cs int
}

func sameFE(what string, got *xc.Ed25519FieldElement, want *Limbs) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("%s: present %v instead of %v", what, got != nil, want != nil)
	}
	if got != nil && got.Raw != *want {
		return fmt.Errorf("%s: %v instead of %v", what, got.Raw, *want)
	}
	return nil
}

func canonHex(l Limbs) string { return hex.EncodeToString(ref.ToLE(val(l), 32)) }

func checkT01group(c textCase, rec *Rec) error {
	rec.NT()
	rec.Class("coordinate system %d", c.Cs)
	l := c.L
	cs := xc.CoordinateSystem(c.Cs)
	f := func(i int) *xc.Ed25519FieldElement { return xc.NewEd25519FieldElement(l[i]) }
	var g, h *xc.Ed25519GroupElement
	t := f(3)
	wantT := &c.L[3]
	switch cs {
	case xc.AFFINE:
		g = xc.NewEd25519GroupElementAffine(f(0), f(1), f(2))
	case xc.P2:
		g = xc.NewEd25519GroupElementP2(f(0), f(1), f(2))
	case xc.P3:
		g = xc.NewEd25519GroupElementP3(f(0), f(1), f(2), f(3))
	case xc.P1xP1:
		g = xc.NewEd25519GroupElementP1XP1(f(0), f(1), f(2), f(3))
	case xc.PRECOMPUTED:
		g = xc.NewEd25519GroupElementPrecomputed(f(0), f(1), f(2))
	case xc.CACHED:
		g = xc.NewEd25519GroupElementCached(f(0), f(1), f(2), f(3))
	}
	if cs == xc.AFFINE || cs == xc.P2 || cs == xc.PRECOMPUTED {
		t, wantT = nil, nil
	}
	h = xc.NewEd25519GroupElement(cs, f(0), f(1), f(2), t)
	for _, e := range []*xc.Ed25519GroupElement{g, h} {
		s := e.String()
		again := e.String()
		if err := first(
			sameFE("X", e.GetX(), &c.L[0]), sameFE("Y", e.GetY(), &c.L[1]), sameFE("Z", e.GetZ(), &c.L[2]), sameFE("T", e.GetT(), wantT),
			sameFE("field X", e.X, &c.L[0]), sameFE("field T", e.T, wantT)); err != nil {
			return err
		}
		if e.GetCoordinateSystem() != cs {
			return fmt.Errorf("coordinate system %d instead of %d", e.GetCoordinateSystem(), cs)
		}
		want := "X=" + canonHex(c.L[0]) + "\nY=" + canonHex(c.L[1]) + "\nZ=" + canonHex(c.L[2]) + "\n"
		if !strings.HasPrefix(s, want) || s != again {
			return fmt.Errorf("text %q, then %q, instead of %q", s, again, want)
		}
		if wantT != nil && s != want+"T="+canonHex(*wantT)+"\n" {
			return fmt.Errorf("text %q ends with the wrong T", s)
		}
	}
	return nil
}

func checkT01field(c fieldCase, rec *Rec) error {
	rec.NT()
	f := fe(c.A)
	return first(eqStr("field element", f.String(), canonHex(c.A)), eqStr("again", f.String(), canonHex(c.A)), sameFE("the element", &f, &c.A))
}

func eqStr(what, got, want string) error {
	if got != want {
		return fmt.Errorf("%s: got %q want %q", what, got, want)
	}
	return nil
}

func checkT01enc(c fbytesCase, rec *Rec) error {
	rec.Class("%s", lenClass(len(c.B)))
	in := dup(c.B)
	e, err := xc.NewEd25519EncodedFieldElement(in)
	if len(c.B) != 32 && len(c.B) != 64 {
		if err == nil {
			return fmt.Errorf("an encoded element of %d bytes is accepted", len(c.B))
		}
	} else {
		rec.NT()
		if err != nil {
			return fmt.Errorf("refused: %v", err)
		}
		if err := first(eqStr("encoded field element", e.String(), hex.EncodeToString(c.B)), same("its bytes", e.Raw, c.B)); err != nil {
			return err
		}
	}
	g, err := xc.NewEd25519EncodedGroupElement(in)
	if (err == nil) != (len(c.B) == 32) {
		return fmt.Errorf("an encoded point of %d bytes is accepted: %v", len(c.B), err == nil)
	}
	if err != nil {
		return nil
	}
	s := g.String()
	p := ref.Decode(c.B)
	rec.Class("point %v", p != nil)
	if p == nil {
		if s == "" || strings.HasPrefix(s, "x=") {
			return fmt.Errorf("text %q of what is no point", s)
		}
	} else {
		a := ref.AffOf(p)
		want := "x=" + hex.EncodeToString(ref.ToLE(a.X, 32)) + "\ny=" + hex.EncodeToString(ref.ToLE(a.Y, 32)) + "\n"
		if s != want {
			return fmt.Errorf("text %q instead of %q", s, want)
		}
	}
	return first(eqStr("again", g.String(), s), same("its bytes", g.Raw, c.B), same("argument", in, c.B))
}

func init() {
	register(&Prop{ID: "R01", Facets: []*Facet{
		F("standard-sources", "every case: sources of the types of the standard library", 20000, 500000, genStd(64, false), checkR01std),
		F("helpers", "a helper used bytes of the source", 200000, 1500000, genRand, checkR01,
			randCase{Source{Seed: 1, End: 0, Mode: "eof"}, []randCall{{"bytes", 1}, {"int64", 0}, {"group", 0}, {"encgroup", 0}, {"field", 0}, {"encoded", 32}}}),
		F("field-elements", "the sources differ", 40000, 100000, func(t *rapid.T) randFieldCase { return randFieldCase{genSource(t), genSource(t)} }, checkR01field),
	}})
	register(&Prop{ID: "T01", Facets: []*Facet{
		refilled(30000, 1000000, false, "field", "encoded-field", "encoded-point", "point"),
		F("field", "every case", 300000, 2000000, func(t *rapid.T) fieldCase { return fieldCase{A: genLimbs(t, encIn)} }, checkT01field),
		F("encoded", "the length is right", 100000, 600000, func(t *rapid.T) fbytesCase {
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				return fbytesCase{genBlob(t, 100).Bytes()}
			case 1:
				return fbytesCase{genBlobN(t, 64).Bytes()}
			case 2:
				return fbytesCase{genBytes32(t)}
			}
			return fbytesCase{genPubBytes(t)}
		}, checkT01enc),
		F("group", "every case", 200000, 1500000, func(t *rapid.T) textCase {
			var c textCase
			for i := range c.L {
				c.L[i] = genLimbs(t, encIn)
			}
			c.Cs = rapid.IntRange(0, 5).Draw(t, "cs")
			return c
		}, checkT01group),
	}})
}

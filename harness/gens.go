package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"slices"

	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

// ---------- deterministic expansion of drawn seeds ----------

type mix uint64

func (m *mix) next() uint64 {
	*m += 0x9e3779b97f4a7c15
	z := uint64(*m)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func expand(seed uint64, n int) []byte {
	b := make([]byte, n+8)
	m := mix(seed)
	for i := 0; i < n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], m.next())
	}
	return b[:n:n]
}

// ---------- byte strings of any length ----------

type Edit struct {
	Pos int
	Val byte
}

// Blob is the recipe of a byte string.
type Blob struct {
	Len  int
	Kind string
	Seed uint64 `json:",omitempty"`
	Edit []Edit `json:",omitempty"`
	Pre  Hex    `json:",omitempty"` // overwrites the beginning
}

// literal is a byte string given as it is.
func literal(b []byte) Blob { return Blob{Len: len(b), Kind: "zero", Pre: dup(b)} }

var blobKinds = []string{"zero", "random", "ff", "const", "count", "sparse", "padlike"}

// Without any bytes it is nil or empty, by its kind.
func (b Blob) Bytes() []byte {
	var r []byte
	if b.Len == 0 && (b.Kind == "ff" || b.Kind == "sparse" || b.Kind == "count") {
		return nil
	}
	switch b.Kind {
	case "random":
		r = expand(b.Seed, b.Len)
	case "ff":
		r = bytes.Repeat([]byte{0xff}, b.Len)
	case "const":
		r = bytes.Repeat([]byte{byte(b.Seed)}, b.Len)
	case "count":
		r = make([]byte, b.Len)
		for i := range r {
			r[i] = byte(i) + byte(b.Seed)
		}
	case "sparse":
		r = make([]byte, b.Len)
		m := mix(b.Seed)
		if b.Len > 0 {
			for i := 0; i <= b.Len/40; i++ {
				r[m.next()%uint64(b.Len)] = byte(m.next())
			}
		}
	case "padlike": // ends like PKCS#7 padding
		r = expand(b.Seed, b.Len)
		n := int(b.Seed%17) + 1
		for i := 0; i < n && i < b.Len; i++ {
			r[b.Len-1-i] = byte(n)
		}
	default:
		r = make([]byte, b.Len)
	}
	copy(r, b.Pre)
	for _, e := range b.Edit {
		if b.Len > 0 {
			r[e.Pos%b.Len] = e.Val
		}
	}
	return r[:len(r):len(r)]
}

// Special tells whether the content is more than plain random bytes.
func (b Blob) Special() bool { return b.Kind != "random" || len(b.Edit)+len(b.Pre) > 0 }

var lenAnchors = []int{16, 32, 48, 55, 56, 64, 72, 80, 96, 104, 111, 112, 119, 120, 128, 136, 144, 160, 168, 192, 200, 216, 240, 255, 256, 257, 272, 288, 320, 360, 408, 432, 512, 544, 576, 648, 680, 720, 1000, 1024, 2048, 4096}

func genLen(t *rapid.T, max int) int {
	var n int
	switch k := rapid.IntRange(0, 9).Draw(t, "lenkind"); {
	case k < 4:
		n = rapid.IntRange(0, 40).Draw(t, "len")
	case k < 7:
		n = rapid.SampledFrom(lenAnchors).Draw(t, "anchor") + rapid.IntRange(-2, 2).Draw(t, "off")
	case k < 8:
		n = dictInt(t) + rapid.SampledFrom([]int{0, 1, -1}).Draw(t, "off")
	default:
		n = rapid.IntRange(0, max).Draw(t, "len")
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n %= max + 1
	}
	return n
}

// genLong draws a length of a long input.
func genLong(t *rapid.T, min, max int) int {
	n := 0
	switch rapid.IntRange(0, 6).Draw(t, "longkind") {
	case 6: // multiples of powers of two, alone or with up to 64 bytes that something else adds
		pow := rapid.IntRange(8, 16).Draw(t, "pow")
		k := rapid.IntRange(max1(min>>pow), max1(max>>pow)).Draw(t, "k")
		n = k<<pow - rapid.SampledFrom([]int{0, 16, 32, 48, 64, 96}).Draw(t, "head") - rapid.SampledFrom([]int{0, 0, 1, 16, 8}).Draw(t, "pad")
	case 0:
		off := rapid.SampledFrom([]int{0, 1, -1, 3, 16}).Draw(t, "off")
		if h := novel.huge; len(h) > 0 && rapid.IntRange(0, 5).Draw(t, "huge") == 5 { // longer than anything else
			return h[rapid.IntRange(0, len(h)-1).Draw(t, "which")] + off
		}
		n = dictInt(t) + off
		if n < 300 { // short literals are drawn elsewhere; here as a number of blocks
			n *= rapid.SampledFrom([]int{16, 64, 72, 136, 1000, 1024}).Draw(t, "block")
		}
	case 1: // around powers of two
		n = 1<<rapid.IntRange(8, 18).Draw(t, "pow") + rapid.IntRange(-2, 2).Draw(t, "off")
	default:
		n = rapid.IntRange(min, max).Draw(t, "len")
	}
	if n < 0 || n > max {
		n = max
	}
	return n
}

func max1(n int) int { return max(n, 1) }

func genBlobN(t *rapid.T, n int) Blob {
	b := Blob{Len: n, Kind: rapid.SampledFrom(blobKinds).Draw(t, "kind")}
	if b.Kind == "zero" && rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
		b.Kind = "random"
	}
	if b.Kind != "zero" && b.Kind != "ff" {
		b.Seed = rapid.Uint64().Draw(t, "seed")
	}
	if n > 0 && rapid.IntRange(0, 4).Draw(t, "edits") == 4 {
		k := rapid.IntRange(1, 8).Draw(t, "nedit")
		for i := 0; i < k; i++ {
			v := rapid.Byte().Draw(t, "val")
			if v < 64 {
				v = dictByte(t)
			}
			pos := rapid.IntRange(0, n-1).Draw(t, "pos")
			if rapid.Bool().Draw(t, "end") {
				pos = n - 1 - pos
			}
			b.Edit = append(b.Edit, Edit{pos, v})
		}
	} else {
		switch rapid.IntRange(0, 11).Draw(t, "lit") {
		case 11:
			b.Pre = dictStr(t)
		case 9, 10: // drawn as they are, so that the search can change each byte
			b.Pre = genRaw(t, min(n, 64))
		}
	}
	return b
}

// genRaw draws n bytes one word at a time.
func genRaw(t *rapid.T, n int) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		b = binary.LittleEndian.AppendUint64(b, rapid.Word().Draw(t, "raw"))
	}
	return b[:n:n]
}

func genBlob(t *rapid.T, max int) Blob { return genBlobN(t, genLen(t, max)) }

// genBlobUp draws messages as genBlob does, and now and then a long one.
func genBlobUp(t *rapid.T, max int) Blob { return genBlobN(t, genLenUp(t, max)) }

func genLenUp(t *rapid.T, max int) int {
	if rapid.IntRange(0, 39).Draw(t, "up") == 39 {
		return genLong(t, max, 140000)
	}
	return genLen(t, max)
}

// ---------- 32-byte strings ----------

func genBytes32(t *rapid.T) Hex {
	b := make([]byte, 32)
	switch rapid.IntRange(0, 19).Draw(t, "b32kind") {
	case 7: // a literal in front or at the end
		copy(b, expand(rapid.Uint64().Draw(t, "seed"), 32))
		s := dictStr(t)
		if rapid.IntRange(0, 2).Draw(t, "byte") > 0 {
			s = []byte{dictByte(t)}
		}
		if rapid.Bool().Draw(t, "end") {
			copy(b[max(0, 32-len(s)):], s)
		} else {
			copy(b, s)
		}
	case 0: // small integer, little or big endian
		v := rapid.Uint16().Draw(t, "small")
		if rapid.Bool().Draw(t, "be") {
			binary.BigEndian.PutUint16(b[30:], v)
		} else {
			binary.LittleEndian.PutUint16(b, v)
		}
	case 1: // leading zeros
		copy(b, expand(rapid.Uint64().Draw(t, "seed"), 32))
		n := rapid.IntRange(1, 31).Draw(t, "zeros")
		clear(b[:n])
	case 2: // trailing zeros
		copy(b, expand(rapid.Uint64().Draw(t, "seed"), 32))
		n := rapid.IntRange(1, 31).Draw(t, "zeros")
		clear(b[32-n:])
	case 3:
		v := rapid.Byte().Draw(t, "const")
		for i := range b {
			b[i] = v
		}
	case 4: // one bit
		k := rapid.IntRange(0, 255).Draw(t, "bit")
		b[k/8] = 1 << (k % 8)
	case 5: // all but one bit
		k := rapid.IntRange(0, 255).Draw(t, "bit")
		for i := range b {
			b[i] = 0xff
		}
		b[k/8] ^= 1 << (k % 8)
	case 8, 9: // many zero bytes
		r := expand(rapid.Uint64().Draw(t, "seed"), 64)
		for i := range b {
			if r[i]&1 == 0 {
				b[i] = r[32+i]
			}
		}
	case 10, 11:
		copy(b, genRaw(t, 32))
	case 6: // printable text
		s := expand(rapid.Uint64().Draw(t, "seed"), 32)
		for i := range b {
			b[i] = 0x20 + s[i]%0x5f
		}
	default:
		copy(b, expand(rapid.Uint64().Draw(t, "seed"), 32))
		if rapid.IntRange(0, 3).Draw(t, "edit") == 3 {
			for k := rapid.IntRange(1, 6).Draw(t, "nedit"); k > 0; k-- {
				v := rapid.Byte().Draw(t, "val")
				if v < 32 {
					v = []byte{0, 1, 0x7f, 0x80, 0xff}[v%5]
				} else if v < 64 {
					v = dictByte(t)
				}
				b[rapid.IntRange(0, 31).Draw(t, "pos")] = v
			}
		}
	}
	return b
}

// genPriv draws a private key.
func genPriv(t *rapid.T) Hex {
	if e := rareOr(t, "key", 12); e != nil {
		return dup(e.A)
	}
	return genBytes32(t)
}

// genPrivAny draws private keys, now and then of another length: a raw private
// key may have any.
func genPrivAny(t *rapid.T) Hex {
	if rapid.IntRange(0, 11).Draw(t, "other length") < 11 {
		return genPriv(t)
	}
	b := genBlob(t, 200)
	if b.Len == 0 {
		b.Len = 33
	}
	return b.Bytes()
}

// leB gives n little-endian bytes of v mod 2^(8n).
func leB(v *big.Int, n int) Hex {
	m := new(big.Int).Lsh(ref.One, uint(8*n))
	return ref.ToLE(new(big.Int).Mod(v, m), n)
}

func bi(v int64) *big.Int { return big.NewInt(v) }

// genInt draws an integer below 2^bits with weight on the boundaries around
// multiples of L and p and on powers of two.
func genInt(t *rapid.T, bits int) *big.Int {
	max := new(big.Int).Lsh(ref.One, uint(bits))
	v := new(big.Int)
	switch rapid.IntRange(0, 12).Draw(t, "intkind") {
	case 12: // a literal
		v.Add(dictWord(t), bi(rapid.Int64Range(-2, 2).Draw(t, "off")))
		if rapid.IntRange(0, 3).Draw(t, "shift") == 0 {
			v.Lsh(v, uint(rapid.IntRange(0, bits).Draw(t, "sh")))
		}
	case 10, 11: // limbs of some width, each at a boundary or random
		w := rapid.SampledFrom([]uint{4, 8, 16, 21, 25, 26, 32, 51, 64}).Draw(t, "w")
		alt := w == 25 && rapid.Bool().Draw(t, "alt") // widths 26, 25, 26, ...
		m := mix(rapid.Uint64().Draw(t, "seed"))
		special := m.next()%4 + 1
		for at, i := uint(0), 0; at < uint(bits); i++ {
			width := w
			if alt && i%2 == 0 {
				width = 26
			}
			full := uint64(1)<<(width-1)<<1 - 1
			half := uint64(1) << (width - 1)
			x := m.next() & full
			if m.next()%5 < special {
				x = []uint64{0, 1, half - 1, half, half + 1, full - 1, full, full - 18}[m.next()%8] & full
			}
			y := new(big.Int).SetUint64(x)
			v.Or(v, y.Lsh(y, at))
			at += width
		}
	case 0:
		v.SetUint64(rapid.Uint64Range(0, 300).Draw(t, "small"))
	case 1: // around k*L
		q := new(big.Int).Div(max, ref.L)
		k := int64(40)
		if q.IsInt64() && q.Int64() < k {
			k = q.Int64()
		}
		m := bi(rapid.Int64Range(0, k).Draw(t, "k"))
		if rapid.IntRange(0, 3).Draw(t, "big") == 0 && q.BitLen() > 8 {
			m.SetBytes(expand(rapid.Uint64().Draw(t, "kseed"), (q.BitLen()-1)/8))
		}
		v.Mul(m, ref.L).Add(v, bi(rapid.Int64Range(-3, 3).Draw(t, "off")))
	case 2: // around k*p
		v.Mul(ref.P, bi(rapid.Int64Range(0, 2).Draw(t, "k"))).Add(v, bi(rapid.Int64Range(-20, 20).Draw(t, "off")))
	case 3: // around a power of two
		v.Lsh(ref.One, uint(rapid.IntRange(0, bits).Draw(t, "pow"))).Add(v, bi(rapid.Int64Range(-3, 3).Draw(t, "off")))
	case 4: // runs of ones and zeros
		b := make([]byte, bits/8+1)
		m := mix(rapid.Uint64().Draw(t, "seed"))
		bit, left := m.next()&1, uint64(0)
		for i := 0; i < bits; i++ {
			if left == 0 {
				left = 1 + m.next()%uint64(1+bits/4)
				bit ^= 1
			}
			left--
			b[i/8] |= byte(bit << (i % 8))
		}
		v = ref.LE(b)
	case 5: // L or p with the low 64 bits kept and the rest changed, or the other way round
		v.Set(ref.L)
		r := new(big.Int).SetBytes(expand(rapid.Uint64().Draw(t, "seed"), 32))
		r.Rsh(r, uint(rapid.IntRange(0, 192).Draw(t, "sh")))
		cut := uint(rapid.SampledFrom([]int{8, 16, 32, 64, 128, 192}).Draw(t, "cut"))
		low := new(big.Int).Mod(v, new(big.Int).Lsh(ref.One, cut))
		v = r.Lsh(r, cut).Add(r, low)
	case 6: // low bits zero
		v.SetBytes(expand(rapid.Uint64().Draw(t, "seed"), (bits+7)/8))
		k := uint(rapid.SampledFrom([]int{8, 16, 21, 32, 42, 63, 64, 65, 128, 192, 252}).Draw(t, "cut"))
		v.Rsh(v, k).Lsh(v, k)
	default:
		v.SetBytes(expand(rapid.Uint64().Draw(t, "seed"), (bits+7)/8))
	}
	return v.Mod(v, max)
}

// ---------- public keys and points ----------

// genPoint draws a curve point as (multiple of the base point) + torsion.
type Pt struct {
	K Hex // scalar, 32 bytes little endian, below L
	T int // torsion component 0..7
}

func (p Pt) Point() *ed.Point {
	k := ref.ModL(p.K)
	return new(ed.Point).Add(ref.MulBase(k), ref.Torsion[p.T&7])
}

func genPt(t *rapid.T) Pt {
	p := Pt{K: make([]byte, 32)}
	switch rapid.IntRange(0, 9).Draw(t, "ptkind") {
	case 0: // low order
		p.T = rapid.IntRange(0, 7).Draw(t, "tors")
	case 1: // small multiple, maybe negative
		v := bi(rapid.Int64Range(-20, 20).Draw(t, "k"))
		p.K = ref.ToLE(v.Mod(v, ref.L), 32)
		p.T = rapid.IntRange(0, 7).Draw(t, "tors")
	case 2, 3, 4:
		v := ref.ModL(expand(rapid.Uint64().Draw(t, "seed"), 32))
		p.K = ref.ToLE(v, 32)
		p.T = rapid.IntRange(0, 7).Draw(t, "tors")
	default:
		v := ref.ModL(expand(rapid.Uint64().Draw(t, "seed"), 32))
		p.K = ref.ToLE(v, 32)
	}
	return p
}

func (p Pt) kind() string {
	z := ref.ModL(p.K).Sign() == 0
	switch {
	case z && p.T == 0:
		return "neutral"
	case z:
		return "low order"
	case p.T != 0:
		return "mixed order"
	}
	return "prime order"
}

// genPubBytes draws 32 bytes offered as a public key.
func genPubBytes(t *rapid.T) Hex {
	switch rapid.IntRange(0, 10).Draw(t, "pubkind") {
	case 10:
		return nearEnc(t)
	case 0: // all 32-byte strings, mostly about half of them decode
		return genBytes32(t)
	case 1: // y near 0 or p: non-canonical and low-order encodings
		v := bi(rapid.Int64Range(0, 18).Draw(t, "y"))
		if rapid.Bool().Draw(t, "plusp") {
			v.Add(v, ref.P)
		}
		b := leB(v, 32)
		if rapid.Bool().Draw(t, "sign") {
			b[31] ^= 0x80
		}
		return b
	case 2: // encodings of torsion points, with either sign bit
		b := ref.Torsion[rapid.IntRange(0, 7).Draw(t, "tors")].Bytes()
		if rapid.Bool().Draw(t, "sign") {
			b[31] ^= 0x80
		}
		return b
	case 3, 4:
		return genPt(t).Point().Bytes()
	default:
		return ref.Pub(genPriv(t))
	}
}

func pubClass(b []byte) string {
	switch {
	case len(b) != 32:
		return "wrong length"
	case bytes.Equal(b, make([]byte, 32)):
		return "all zero"
	}
	p := ref.Decode(b)
	s := ""
	if !ref.Canonical(b) {
		s = "non-canonical "
	}
	if p == nil {
		return s + "off curve"
	}
	q := ed.ScalarMultBits(ref.ToLE(ref.L, 32), p)
	if q.Equal(ed.NewIdentityPoint()) == 1 {
		if p.Equal(ed.NewIdentityPoint()) == 1 {
			return s + "neutral"
		}
		return s + "prime order"
	}
	e := new(ed.Point).Add(p, p)
	e.Add(e, e)
	e.Add(e, e)
	if e.Equal(ed.NewIdentityPoint()) == 1 {
		return s + "low order"
	}
	return s + "mixed order"
}

// ---------- randomness sources ----------

// Source is the recipe of an io.Reader: a byte stream cut into chunks that ends
// or fails at a chosen place.
type Source struct {
	Seed   uint64
	Chunks []int  `json:",omitempty"` // sizes of successive reads, repeated; 0 gives an empty read
	End    int    // number of bytes delivered before the end, -1 for endless
	Mode   string // "eof", "err", "errwith": how it ends (errwith: error together with the last bytes)
	Heal   bool   `json:",omitempty"` // after one failure it goes on delivering
	Fixed  Hex    `json:",omitempty"` // the stream starts with these bytes
}

var errSource = errors.New("verif: source failed")

type srcReader struct {
	s      Source
	pos    int
	call   int
	failed bool
	stream []byte
	Failed int // failures reported
	Drawn  int // bytes delivered
}

func (s Source) reader() *srcReader { return &srcReader{s: s} }

// at returns stream bytes [from, from+n).
func (r *srcReader) at(from, n int) []byte {
	if len(r.stream) < from+n {
		r.stream = append(append([]byte{}, r.s.Fixed...), expand(r.s.Seed, from+n+4096)...)
	}
	return append([]byte{}, r.stream[from:from+n]...)
}

func (r *srcReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.s.Chunks) > 0 {
		c := r.s.Chunks[r.call%len(r.s.Chunks)]
		r.call++
		if c < n {
			n = c
		}
	}
	if r.s.End >= 0 && !(r.s.Heal && r.failed) {
		left := r.s.End - r.pos
		if left <= 0 {
			r.failed = true
			r.Failed++
			return 0, r.err()
		}
		if n >= left {
			n = left
			scratch(p, r.at(r.pos, n))
			r.pos += n
			r.Drawn += n
			if r.s.Mode == "errwith" {
				r.failed = true
				r.Failed++
				return n, r.err()
			}
			return n, nil
		}
	}
	scratch(p, r.at(r.pos, n))
	r.pos += n
	r.Drawn += n
	return n, nil
}

// scratch delivers what was read into p. A reader may use the rest of p as
// scratch space, and this one does.
func scratch(p, read []byte) {
	for i, n := copy(p, read), len(read)+64; i < len(p) && i < n; i++ {
		p[i] = byte(0xa5 + 7*i)
	}
}

func (r *srcReader) err() error {
	if r.s.Mode == "err" {
		return errSource
	}
	return io.EOF
}

func genChunks(t *rapid.T) []int {
	switch rapid.IntRange(0, 5).Draw(t, "chunkkind") {
	case 0, 1:
		return nil
	case 5: // long pauses
		c := []int{rapid.IntRange(1, 48).Draw(t, "chunk")}
		return append(c, make([]int, rapid.SampledFrom([]int{1, 2, 3, 5, 10, 20, 99, 100, 101, 120}).Draw(t, "pause"))...)
	case 2:
		return []int{rapid.IntRange(1, 40).Draw(t, "chunk")}
	case 3:
		return []int{1}
	}
	n := rapid.IntRange(1, 5).Draw(t, "nchunk")
	var c []int
	for i := 0; i < n; i++ {
		c = append(c, rapid.IntRange(0, 33).Draw(t, "chunk"))
	}
	return append(c, 1+rapid.IntRange(0, 20).Draw(t, "chunk"))
}

// genStream makes n bytes of pieces that repeat, reverse or complement earlier
// pieces, or are zero, or are new.
func genStream(t *rapid.T, n int) Hex {
	var b []byte
	unit := rapid.SampledFrom([]int{1, 4, 8, 16, 16, 32, 48}).Draw(t, "unit")
	kinds := rapid.IntRange(0, 2).Draw(t, "pieces")
	for len(b) < n {
		k := 0
		if len(b) > 0 {
			k = rapid.IntRange(0, 3+kinds).Draw(t, "piece")
		}
		var p []byte
		if k > 0 && k < 4 {
			i := unit * rapid.IntRange(0, (len(b)-1)/unit).Draw(t, "from")
			p = dup(b[i:min(i+unit, len(b))])
		}
		switch k {
		case 2:
			slices.Reverse(p)
		case 3:
			for i := range p {
				p[i] ^= 0xff
			}
		case 4:
			p = make([]byte, unit)
		case 0, 5:
			p = expand(rapid.Uint64().Draw(t, "new"), unit)
		}
		b = append(b, p...)
	}
	return b[:n]
}

func genSource(t *rapid.T) Source {
	return Source{Seed: rapid.Uint64().Draw(t, "rndseed"), Chunks: genChunks(t), End: -1, Mode: "eof"}
}

func genFailingSource(t *rapid.T, max int) Source {
	s := genSource(t)
	s.End = rapid.IntRange(0, max).Draw(t, "end")
	s.Mode = rapid.SampledFrom([]string{"eof", "err", "errwith"}).Draw(t, "mode")
	return s
}

// ---------- helpers of oracles ----------

func same(what string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: got %x want %x", what, clipB(got), clipB(want))
	}
	return nil
}

// spent is same for a result that belongs to the caller, who then writes it over:
// no later result may show that.
func spent(what string, got, want []byte) error {
	err := same(what, got, want)
	overwrite(got, uint64(len(got)))
	return err
}

func clipB(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func lenClass(n int) string {
	switch {
	case n == 0:
		return "len 0"
	case n < 16:
		return "len 1-15"
	case n <= 72:
		return "len 16-72"
	case n <= 144:
		return "len 73-144"
	case n <= 1024:
		return "len 145-1024"
	case n <= 65536:
		return "len 1k-64k"
	}
	return "len >64k"
}

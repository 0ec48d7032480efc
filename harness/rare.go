package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"vf/ref"
	"vf/ref/ed"
)

// Keys, messages and pairs of keys for which a value that is computed on the
// way, and that nobody can choose, has a pattern: bytes of 00 or ff at an end, a
// limb that is zero or full, few or many bits, the beginning of another value.
// rare.txt lists what `vf mine` found in some ten million tries of each kind; a
// random input has such a value with a probability of 2^-16 to 2^-26.

//go:embed rare.txt
var rareText string

type rareEntry struct {
	Name string
	A, B Hex
}

var rare = map[string][]rareEntry{}

func loadRare() {
	for _, l := range strings.Split(strings.TrimSpace(rareText), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 {
			continue
		}
		e := rareEntry{Name: f[1]}
		var err error
		e.A, err = hex.DecodeString(f[2])
		must(err)
		if len(f) > 3 {
			e.B, err = hex.DecodeString(f[3])
			must(err)
		}
		rare[f[0]] = append(rare[f[0]], e)
	}
}

// rareOr draws an entry of a kind about every nth time.
func rareOr(t *rapid.T, kind string, n int) *rareEntry {
	l := rare[kind]
	if len(l) == 0 || rapid.IntRange(1, n).Draw(t, "rare") < n {
		return nil
	}
	return &l[rapid.IntRange(0, len(l)-1).Draw(t, "entry")]
}

// ---- mining ----

// A feature has a name and says how rare it is, as a negative logarithm.
const minRare = 13

// ends looks at the bytes of a value; top bits that are always zero count for nothing.
func ends(what string, b []byte, mask byte, add func(string, int)) {
	n := len(b)
	run := func(from, step int, v byte) (k int) {
		for i := from; i >= 0 && i < n; i += step {
			x := b[i]
			if i == n-1 {
				x = x&mask | v&^mask
			}
			if x != v {
				return k
			}
			k++
		}
		return
	}
	put := func(name string, bits int) {
		if bits >= minRare {
			add(what+name, bits)
		}
	}
	put(".lo00", 8*run(0, 1, 0))
	put(".loff", 8*run(0, 1, 0xff))
	free := 8 - bits.OnesCount8(mask)
	put(".hi00", 8*run(n-1, -1, 0)-free)
	put(".hiff", 8*run(n-1, -1, 0xff)-free)
	best, cur := 0, 0
	for i := 1; i < n-1; i++ {
		if b[i] == 0 {
			if cur++; cur > best {
				best = cur
			}
		} else {
			cur = 0
		}
	}
	put(".run00", 8*best-5)
	if n == 64 {
		k := 0
		for i := 32; i < n && b[i] == 0; i++ {
			k++
		}
		put(".mid00", 8*k)
	}
}

// limbs looks at the limbs of a number of 255 or 252 bits.
func limbFeatures(what string, b []byte, widths []uint, add func(string, int)) {
	at := uint(0)
	for i, w := range widths {
		v := uint64(0)
		for k := uint(0); k < 8 && at/8+k < uint(len(b)); k++ {
			v |= uint64(b[at/8+k]) << (8 * k)
		}
		v = v >> (at % 8) & (1<<w - 1)
		if k := int(w) - bits.Len64(v); k >= minRare {
			add(fmt.Sprintf("%s.limb%d-0", what, i), k)
		}
		if k := int(w) - bits.Len64(v^(1<<w-1)); k >= minRare {
			add(fmt.Sprintf("%s.limb%d-f", what, i), k)
		}
		at += w
	}
}

// weight looks at the number of bits that are set.
func weight(what string, b []byte, add func(string, int)) {
	k := 0
	for _, x := range b {
		k += bits.OnesCount8(x)
	}
	if k < 92 { // as rare as 14 bits, and more with every bit
		add(what+".few", 14+92-k)
	} else if k > 160 {
		add(what+".many", 14+k-160)
	}
}

var fieldLimbs = []uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
var orderLimbs = []uint{21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21}

func eqPrefix(what string, a, b []byte, add func(string, int)) {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	if 8*k >= minRare {
		add(what, 8*k)
	}
}

func pointFeatures(what string, p *ed.Point, add func(string, int)) []byte {
	x, y := p.Affine()
	ends(what+".x", x, 0x7f, add)
	ends(what+".y", y, 0x7f, add)
	limbFeatures(what+".x", x, fieldLimbs, add)
	limbFeatures(what+".y", y, fieldLimbs, add)
	y[31] |= x[0] << 7
	return y
}

func scalarFeatures(what string, b []byte, add func(string, int)) {
	ends(what, b, 0x0f, add)
	limbFeatures(what, b, orderLimbs, add)
	weight(what, b, add)
}

func uniform(b []byte) *ed.Scalar {
	s, err := new(ed.Scalar).SetUniformBytes(b)
	must(err)
	return s
}

func clamped(priv []byte) *ed.Scalar { return uniform(append(ref.Clamp(priv), make([]byte, 32)...)) }

func counterKey(base, n uint64) Hex {
	b := expand(base, 32)
	binary.LittleEndian.PutUint64(b[8:], n)
	return b
}

// mine1 looks at one candidate of a kind and gives its inputs.
func mine1(kind string, n uint64, add func(string, int)) (a, b Hex) {
	switch kind {
	case "key":
		a = counterKey(1, n)
		h := ref.SHA3512(a)
		k := clamped(a)
		ends("a", ref.Clamp(a)[1:31], 0xff, add)
		weight("a", ref.Clamp(a), add)
		ends("prefix", h[32:], 0xff, add)
		scalarFeatures("a mod L", k.Bytes(), add)
		pub := pointFeatures("pub", new(ed.Point).ScalarBaseMult(k), add)
		eqPrefix("pub like key", pub, a, add)
	case "signature":
		a = counterKey(2, n%5)
		b = binary.LittleEndian.AppendUint64(nil, n)
		k, h := clamped(a), ref.SHA3512(a)
		pub := minePub(a)
		rh := ref.SHA3512(h[32:], b)
		ends("r digest", rh, 0xff, add)
		r := uniform(rh)
		scalarFeatures("r", r.Bytes(), add)
		R := pointFeatures("R", new(ed.Point).ScalarBaseMult(r), add)
		hh := ref.SHA3512(R, pub, b)
		ends("h digest", hh, 0xff, add)
		hs := uniform(hh)
		scalarFeatures("h", hs.Bytes(), add)
		S := new(ed.Scalar).MultiplyAdd(hs, k, r).Bytes()
		scalarFeatures("S", S, add)
		eqPrefix("R like key", R, pub, add)
		eqPrefix("S like R", S, R, add)
		eqPrefix("R like message", R, b, add)
		eqPrefix("S ends like R", []byte{S[31], S[30], S[29]}, []byte{R[31], R[30], R[29]}, add)
	case "shared":
		a, b = counterKey(3, n%3), counterKey(4, n)
		k := new(ed.Scalar).Multiply(clamped(a), clamped(b))
		pointFeatures("shared", new(ed.Point).ScalarBaseMult(k), add)
	default: // hash of a message
		a = binary.LittleEndian.AppendUint64(nil, n)
		var d []byte
		switch kind {
		case "sha256":
			d = ref.SHA256(a)
		case "keccak":
			d = ref.Keccak256(a)
		case "sha3256":
			d = ref.SHA3256(a)
		case "sha3512":
			d = ref.SHA3512(a)
		case "ripemd":
			d = ref.RIPEMD160(a)
		}
		ends(kind, d, 0xff, add)
	}
	return
}

var minedPubs sync.Map

func minePub(priv Hex) []byte {
	if v, ok := minedPubs.Load(string(priv)); ok {
		return v.([]byte)
	}
	p := ref.Pub(priv)
	minedPubs.Store(string(priv), p)
	return p
}

type mined struct {
	kind, name string
	bits       int
	n          uint64
}

// mine tries 2^log candidates of every kind and prints the rarest of each feature.
func mine(log uint, workers int) {
	for _, k := range []struct {
		kind  string
		shift uint
	}{{"key", 0}, {"signature", 0}, {"shared", 1}, {"sha256", 0}, {"keccak", 2}, {"sha3256", 0}, {"sha3512", 0}, {"ripemd", 1}} {
		kind, shift := k.kind, k.shift
		best := map[string][]mined{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				own := map[string][]mined{}
				var n uint64
				add := func(name string, bits int) {
					l := own[name]
					if len(l) == 3 && l[2].bits >= bits {
						return
					}
					l = append(l, mined{kind, name, bits, n})
					sort.SliceStable(l, func(i, j int) bool { return l[i].bits > l[j].bits })
					own[name] = l[:min(3, len(l))]
				}
				for n = uint64(w); n < 1<<(log-shift); n += uint64(workers) {
					mine1(kind, n, add)
				}
				mu.Lock()
				defer mu.Unlock()
				for k, l := range own {
					best[k] = append(best[k], l...)
				}
			}(w)
		}
		wg.Wait()
		var names []string
		for k := range best {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			l := best[k]
			sort.Slice(l, func(i, j int) bool { return l[i].bits > l[j].bits || l[i].bits == l[j].bits && l[i].n < l[j].n })
			for _, m := range l[:min(3, len(l))] {
				a, b := mine1(kind, m.n, func(string, int) {})
				fmt.Printf("%s %s:%d %x %x\n", kind, strings.ReplaceAll(k, " ", "-"), m.bits, []byte(a), []byte(b))
			}
		}
	}
}

// rareHolds looks whether the entries have what their names say.
func rareHolds() error {
	for kind, l := range rare {
		if len(l) == 0 {
			return fmt.Errorf("no rare inputs of kind %s", kind)
		}
	}
	e := rare["key"]
	for i := 0; i < len(e); i += 1 + len(e)/10 {
		found := false
		n := binary.LittleEndian.Uint64(e[i].A[8:])
		a, _ := mine1("key", n, func(name string, bits int) {
			found = found || e[i].Name == fmt.Sprintf("%s:%d", strings.ReplaceAll(name, " ", "-"), bits)
		})
		if !found || !bytes.Equal(a, e[i].A) {
			return fmt.Errorf("rare key %s is not what it was", e[i].Name)
		}
	}
	return nil
}

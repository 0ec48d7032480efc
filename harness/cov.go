package main

import (
	"debug/elf"
	"math/bits"
	"os"
	"unsafe"
)

// Feedback of the guided phase. The package under test is compiled with the
// instrumentation that go test -fuzz uses (-d=libfuzzer): every edge has a
// counter and every comparison reports its operands.

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8

//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8

//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

func libfuzzerTraceCmp1(a, b uint8, pc uint)  { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp2(a, b uint16, pc uint) { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp4(a, b uint32, pc uint) { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceCmp8(a, b uint64, pc uint) { traceCmp(a, b, pc) }

func libfuzzerTraceConstCmp1(a, b uint8, pc uint)  { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { traceCmp(uint64(a), uint64(b), pc) }
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { traceCmp(a, b, pc) }

func libfuzzerHookStrCmp(a, b string, pc uint) {
	if !cov.on {
		return
	}
	n := min(len(a), len(b), 64)
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	d := 0
	if i < n {
		d = bits.OnesCount8(a[i] ^ b[i])
	}
	feature(uint64(pc), uint64(i*9+8-d))
}
func libfuzzerHookEqualFold(a, b string, pc uint) { libfuzzerHookStrCmp(a, b, pc) }

var cov struct {
	on       bool
	counters []byte
	edges    []byte         // the buckets seen of each counter
	near     [1 << 17]uint8 // how near comparisons came
	fresh    int            // features the running case added
	nearAll  int
	cmps     [512]cmpPair // the last unequal comparison at each place
}

type cmpPair struct{ a, b uint64 }

// traceCmp keeps how near the two sides of a comparison came.
func traceCmp(a, b uint64, pc uint) {
	if !cov.on {
		return
	}
	if a != b {
		cov.cmps[pc*0x9e3779b97f4a7c15>>55] = cmpPair{a, b}
	}
	feature(uint64(pc), uint64(bits.OnesCount64(a^b)))
	feature(uint64(pc), uint64(100+bits.LeadingZeros64(max(a, b)-min(a, b))))
}

func feature(pc, v uint64) {
	h := (pc*0x9e3779b97f4a7c15 + v) * 0xbf58476d1ce4e5b9
	if p := &cov.near[h>>47]; *p == 0 {
		*p = 1
		cov.fresh++
		cov.nearAll++
	}
}

// covInit finds the counters; without them the guided phase is left out.
func covInit() bool {
	if cov.counters != nil {
		return true
	}
	self, err := os.Executable()
	if err != nil {
		return false
	}
	f, err := elf.Open(self)
	if err != nil {
		return false
	}
	defer f.Close()
	s := f.Section(".go.fuzzcntrs")
	if s == nil || s.Size == 0 || f.Type != elf.ET_EXEC {
		return false
	}
	cov.counters = unsafe.Slice((*byte)(unsafe.Pointer(uintptr(s.Addr))), s.Size)
	cov.edges = make([]byte, s.Size)
	return true
}

// covReset forgets what was seen.
func covReset() {
	clear(cov.edges)
	clear(cov.near[:])
	cov.nearAll = 0
}

func covBegin() {
	clear(cov.counters)
	clear(cov.cmps[:])
	cov.fresh = 0
	cov.on = true
}

// covEnd counts the features that no case had before.
func covEnd() int {
	cov.on = false
	for i, c := range cov.counters {
		if c == 0 {
			continue
		}
		b := byte(1)
		switch {
		case c >= 128:
			b = 128
		case c >= 32:
			b = 64
		case c >= 16:
			b = 32
		case c >= 8:
			b = 16
		case c >= 4:
			b = 8
		case c >= 3:
			b = 4
		case c >= 2:
			b = 2
		}
		if cov.edges[i]&b == 0 {
			cov.edges[i] |= b
			cov.fresh++
		}
	}
	return cov.fresh
}

func covEdges() (n int) {
	for _, b := range cov.edges {
		if b != 0 {
			n++
		}
	}
	return
}

// covPairs gives the unequal comparisons of the last case.
func covPairs() (ps []cmpPair) {
	for _, p := range cov.cmps {
		if p.a != p.b {
			ps = append(ps, p)
		}
	}
	return
}

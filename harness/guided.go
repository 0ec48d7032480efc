package main

import (
	"math/bits"

	"pgregory.net/rapid"
)

// The guided phase of a facet: the words that the generators consume are
// mutated, and streams that reach something new in the code under test are
// kept and mutated further.

type guidedStat struct {
	Cases  int `json:"cases"`
	Corpus int `json:"corpus"`
	Edges  int `json:"edges"`
	Near   int `json:"near"`
	failed bool
}

type entry struct {
	words  []uint64
	groups []rapid.Span
	cmps   []cmpPair
}

const maxWords = 20000

// guided runs n cases; prop is the same function the random phase runs. It
// stops at the first failure, which it shrinks.
func guided(n int, seed uint64, prop func(*rapid.T)) (st guidedStat) {
	t := &tbStub{}
	m := mix(seed)
	var corpus []entry
	covReset()
	pick := func() *entry {
		// newer ones more often
		k := len(corpus)
		r := float64(m.next()>>11) / (1 << 53)
		return &corpus[k-1-int(r*r*float64(k))%k]
	}
	for i := 0; i < n; i++ {
		var words []uint64
		if len(corpus) > 0 && m.next()%8 != 0 {
			p := pick()
			words = mutate(&m, p, pick)
		}
		covBegin()
		used, groups, valid, failed := rapid.Guided(t, words, m.next(), prop)
		fresh := covEnd()
		st.Cases++
		if failed {
			st.failed = true
			t.run(func() { rapid.Shrink(t, used, prop) })
			break
		}
		if valid && fresh > 0 && len(used) <= maxWords {
			corpus = append(corpus, entry{used, groups, covPairs()})
			if len(corpus) > 4000 { // drop the oldest half
				corpus = append([]entry(nil), corpus[2000:]...)
			}
		}
	}
	st.Corpus, st.Edges, st.Near = len(corpus), covEdges(), cov.nearAll
	return
}

func mutate(m *mix, p *entry, pick func() *entry) []uint64 {
	w := append([]uint64(nil), p.words...)
	if len(w) == 0 {
		return w
	}
	at := func() int { return int(m.next() % uint64(len(w))) }
	for k := 1 + m.next()%3; k > 0 && len(w) > 0; k-- {
		switch m.next() % 16 {
		case 0, 1:
			w[at()] ^= 1 << (m.next() % 64)
		case 2: // low bits matter for small draws
			w[at()] ^= 1 << (m.next() % 8)
		case 3:
			w[at()] = m.next() >> (m.next() % 64)
		case 4:
			w[at()] += m.next()%9 - 4
		case 5:
			w[at()] = 0
		case 6:
			w[at()] = ^uint64(0)
		case 7: // draw one group again
			if len(p.groups) > 0 {
				g := p.groups[m.next()%uint64(len(p.groups))]
				if g.End-g.Begin <= 64 {
					for j := g.Begin; j < g.End && j < len(w); j++ {
						w[j] = m.next()
					}
				}
			}
		case 8, 9: // a group of the same kind from here or from another stream
			if len(p.groups) == 0 {
				break
			}
			g := p.groups[m.next()%uint64(len(p.groups))]
			o := p
			if m.next()%4 != 0 {
				o = pick()
			}
			if len(o.groups) == 0 {
				break
			}
			s := int(m.next() % uint64(len(o.groups)))
			for j := range o.groups {
				h := o.groups[(s+j)%len(o.groups)]
				if h.Label == g.Label && g.End <= len(w) {
					w = append(append(append([]uint64(nil), w[:g.Begin]...), o.words[h.Begin:h.End]...), w[g.End:]...)
					return w // the places of the other groups have moved
				}
			}
		case 10: // cut: the rest is drawn anew
			w = w[:at()]
		case 12, 13, 14, 15: // a value that was compared, in place of what it was compared with
			if len(p.cmps) > 0 {
				c := p.cmps[m.next()%uint64(len(p.cmps))]
				if m.next()&1 == 0 {
					c.a, c.b = c.b, c.a
				}
				matchCmp(m, w, c)
			}
		case 11: // the front of this one, the rest of another
			o := pick()
			c := at()
			if c < len(o.words) {
				w = append(append([]uint64(nil), w[:c]...), o.words[c:]...)
			}
		}
	}
	return w
}

// matchCmp writes c.b over a place of w that holds c.a.
func matchCmp(m *mix, w []uint64, c cmpPair) {
	size := 8
	for size > 1 && max(c.a, c.b)>>(8*(size/2)) == 0 {
		size /= 2
	}
	mask := ^uint64(0) >> (64 - 8*size)
	rev := func(v uint64) uint64 { return bits.ReverseBytes64(v) >> (64 - 8*size) }
	start := int(m.next() % uint64(len(w)))
	for j := range w {
		i := (start + j) % len(w)
		off := int(m.next() % 8)
		for k := 0; k < 8; k++ {
			at := (off + k) % 8
			if at+size > 8 {
				continue
			}
			sh := uint(8 * at)
			switch v := w[i] >> sh & mask; v {
			case c.a:
				w[i] = w[i]&^(mask<<sh) | c.b<<sh
				return
			case rev(c.a):
				w[i] = w[i]&^(mask<<sh) | rev(c.b)<<sh
				return
			}
		}
	}
}

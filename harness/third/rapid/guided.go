// Added to the vendored package: running a property on a stream of words that
// the caller chose and that goes on at random, and shrinking such a stream.

package rapid

import "time"

// Span is a group of words that one generator drew.
type Span struct {
	Begin, End int
	Label      string
}

type mixedBitStream struct {
	buf []uint64
	randomBitStream
}

func (s *mixedBitStream) drawBits(n int) uint64 {
	if len(s.buf) == 0 || n > 64 {
		return s.randomBitStream.drawBits(n)
	}
	u := s.buf[0] & bitmask64(uint(n))
	s.buf = s.buf[1:]
	s.record(u)
	return u
}

// Guided runs prop once on the words of buf, continued at random from seed. It
// returns the words used with their groups, and whether the case was valid.
// failed tells whether prop failed.
func Guided(t TB, buf []uint64, seed uint64, prop func(*T)) (used []uint64, groups []Span, valid, failed bool) {
	s := &mixedBitStream{buf: buf}
	s.init(seed)
	s.persist = true
	err := checkOnce(newT(t, s, false, nil), prop)
	if err != nil && err.isInvalidData() {
		return nil, nil, false, false
	}
	if err != nil {
		return s.data, nil, true, true
	}
	s.prune()
	for _, g := range s.groups {
		groups = append(groups, Span{g.begin, g.end, g.label})
	}
	return s.data, groups, true, false
}

// Shrink makes a failing stream smaller and runs prop on the result.
func Shrink(t TB, buf []uint64, prop func(*T)) {
	s := newBufBitStream(buf, true)
	err := checkOnce(newT(t, s, false, nil), prop)
	if err == nil || err.isInvalidData() {
		return
	}
	small, _ := shrink(t, time.Now().Add(flags.shrinkTime), s.recordedBits, err, prop)
	_ = checkOnce(newT(t, newBufBitStream(small, false), false, nil), prop)
}

type wordGen struct{}

func (wordGen) String() string    { return "Word()" }
func (wordGen) value(t *T) uint64 { return t.s.drawBits(64) }

// Word generates 64 bits of the stream as they are.
func Word() *Generator[uint64] { return newGenerator[uint64](wordGen{}) }

package main

import (
	"math/big"

	"pgregory.net/rapid"

	"vf/ref"
)

// Inputs that fail a test by little: the two sides of an equation differ, and
// the difference is zero in most of its bytes or limbs. Random inputs fail in
// every part at once.

// slim draws a field element with a pattern, not zero.
func slim(t *rapid.T) *big.Int {
	var w *big.Int
	switch rapid.IntRange(0, 2).Draw(t, "slim") {
	case 0: // some bytes only
		b := make([]byte, 32)
		n, at := rapid.IntRange(1, 31).Draw(t, "n"), rapid.IntRange(0, 31).Draw(t, "at")
		copy(b[at:], expand(rapid.Uint64().Draw(t, "seed"), n))
		w = ref.LE(b)
	case 1: // all but some
		b := expand(rapid.Uint64().Draw(t, "seed"), 32)
		n, at := rapid.IntRange(3, 31).Draw(t, "n"), rapid.IntRange(0, 31).Draw(t, "at")
		clear(b[at:min(32, at+n)])
		w = ref.LE(b)
	default:
		w = genInt(t, 255)
	}
	w.SetBit(w, 255, 0)
	if rapid.IntRange(0, 3).Draw(t, "neg") == 0 {
		w.Neg(w)
	}
	if modP(w).Sign() == 0 {
		w.SetInt64(1)
	}
	return w
}

// nearEnc draws an encoding that is no point: with the root that a decoder
// computes, v x^2 - u or v x^2 + u is a value with a pattern.
func nearEnc(t *rapid.T) Hex {
	w, k := slim(t), rapid.IntRange(0, 3).Draw(t, "root")
	// v x^2 is u times a root of -1
	f := new(big.Int).Set(ref.SqrtM1)
	if k&1 != 0 {
		f.Neg(f)
	}
	if k&2 != 0 {
		f.Add(f, ref.One)
	} else {
		f.Sub(f, ref.One)
	}
	f = inv(modP(f))
	for i := 0; i < 60; i++ {
		y := new(big.Int).ModSqrt(modP(new(big.Int).Add(mulP(w, f), ref.One)), ref.P)
		if y != nil {
			b := ref.ToLE(y, 32)
			if rapid.Bool().Draw(t, "sign") {
				b[31] ^= 0x80
			}
			if ref.Decode(b) == nil {
				return b
			}
		}
		w = mulP(w, bi(2)) // the pattern moves
	}
	return ref.ToLE(bi(2), 32)
}

// nearCurve draws coordinates for which the two sides of the curve equation differ by a value with a pattern.
func nearCurve(t *rapid.T) ref.Aff {
	w, x := slim(t), modP(genInt(t, 255))
	for i := 0; i < 60; i++ {
		// y^2 (1 - d x^2) = 1 + x^2 + w
		xx := mulP(x, x)
		v := inv(modP(new(big.Int).Sub(ref.One, mulP(ref.D, xx))))
		s := new(big.Int).Add(xx, w)
		if y := new(big.Int).ModSqrt(mulP(s.Add(s, ref.One), v), ref.P); y != nil {
			return ref.Aff{X: x, Y: y}
		}
		x = modP(new(big.Int).Add(x, ref.One))
	}
	return ref.Aff{X: bi(1), Y: bi(1)}
}

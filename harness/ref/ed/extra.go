package ed

import "vf/ref/ed/field"

// ScalarMultBits computes k*q bit by bit for any little-endian k, without
// reducing k modulo the group order (it matters for points with a torsion part).
func ScalarMultBits(k []byte, q *Point) *Point {
	r := NewIdentityPoint()
	started := false
	for i := len(k)*8 - 1; i >= 0; i-- {
		if started {
			r.Add(r, r)
		}
		if k[i/8]>>(uint(i)%8)&1 == 1 {
			r.Add(r, q)
			started = true
		}
	}
	return r
}

// Affine returns the affine coordinates as canonical 32-byte strings.
func (v *Point) Affine() (x, y []byte) {
	var zInv, fx, fy field.Element
	zInv.Invert(&v.z)
	fx.Multiply(&v.x, &zInv)
	fy.Multiply(&v.y, &zInv)
	return fx.Bytes(), fy.Bytes()
}

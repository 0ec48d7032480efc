// Package ref holds the independent reference models the checks compare with.
package ref

import (
	"crypto/sha256"
	"crypto/sha3"
	"encoding/binary"
	"math/bits"
)

func SHA256(b []byte) []byte  { h := sha256.Sum256(b); return h[:] }
func SHA3256(b []byte) []byte { h := sha3.Sum256(b); return h[:] }
func SHA3512(parts ...[]byte) []byte {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	h := sha3.Sum512(all)
	return h[:]
}

var keccakRC = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
	0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
	0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}

func keccakF(a *[25]uint64) {
	rot := [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
	pil := [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}
	for r := 0; r < 24; r++ {
		var bc [5]uint64
		for i := 0; i < 5; i++ {
			bc[i] = a[i] ^ a[i+5] ^ a[i+10] ^ a[i+15] ^ a[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ bits.RotateLeft64(bc[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				a[j+i] ^= t
			}
		}
		t := a[1]
		for i := 0; i < 24; i++ {
			j := pil[i]
			b := a[j]
			a[j] = bits.RotateLeft64(t, rot[i])
			t = b
		}
		for j := 0; j < 25; j += 5 {
			copy(bc[:], a[j:j+5])
			for i := 0; i < 5; i++ {
				a[j+i] ^= ^bc[(i+1)%5] & bc[(i+2)%5]
			}
		}
		a[0] ^= keccakRC[r]
	}
}

func Sponge(b []byte, rate int, ds byte, out int) []byte {
	var st [25]uint64
	p := append(append([]byte{}, b...), ds)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		keccakF(&st)
		p = p[rate:]
	}
	res := make([]byte, 200)
	for i, v := range st {
		binary.LittleEndian.PutUint64(res[8*i:], v)
	}
	return res[:out]
}

func Keccak256(b []byte) []byte { return Sponge(b, 136, 0x01, 32) }

// RIPEMD-160, written from the specification.
var (
	rmdR = [2][80]int{
		{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
			7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
			3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
			1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
			4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13},
		{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
			6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
			15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
			8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
			12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11},
	}
	rmdS = [2][80]int{
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
			7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
			11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
			11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
			9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6},
		{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
			9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
			9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
			15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
			8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11},
	}
	rmdK = [2][5]uint32{
		{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e},
		{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0},
	}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j {
	case 0:
		return x ^ y ^ z
	case 1:
		return (x & y) | (^x & z)
	case 2:
		return (x | ^y) ^ z
	case 3:
		return (x & z) | (y & ^z)
	}
	return x ^ (y | ^z)
}

func RIPEMD160(b []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	p := append(append([]byte{}, b...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.LittleEndian.AppendUint64(p, uint64(len(b))*8)
	for ; len(p) > 0; p = p[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(p[4*i:])
		}
		var res [2][5]uint32
		for l := 0; l < 2; l++ {
			a, bb, c, d, e := h[0], h[1], h[2], h[3], h[4]
			for j := 0; j < 80; j++ {
				f := j / 16
				if l == 1 {
					f = 4 - f
				}
				t := bits.RotateLeft32(a+rmdF(f, bb, c, d)+x[rmdR[l][j]]+rmdK[l][j/16], rmdS[l][j]) + e
				a, e, d, c, bb = e, d, bits.RotateLeft32(c, 10), bb, t
			}
			res[l] = [5]uint32{a, bb, c, d, e}
		}
		t := h[1] + res[0][2] + res[1][3]
		h[1] = h[2] + res[0][3] + res[1][4]
		h[2] = h[3] + res[0][4] + res[1][0]
		h[3] = h[4] + res[0][0] + res[1][1]
		h[4] = h[0] + res[0][1] + res[1][2]
		h[0] = t
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"strings"

	"pgregory.net/rapid"
)

// Form is one change of shape of a valid value: what transport, framing or
// another textual form does to it.
type Form struct {
	Op  string
	Pos int `json:",omitempty"`
	N   int `json:",omitempty"`
	Val Hex `json:",omitempty"`
}

var formOps = []string{"insert", "delete", "set", "hex", "HEX", "0xhex", "base64", "base64url", "twice", "repeat", "rotate", "reverse", "frame", "trim front", "trim end", "zeros front", "zeros end", "quote", "line", "der", "swap words", "complement"}

func (f Form) apply(b []byte) []byte {
	b = append([]byte(nil), b...)
	pos, n := 0, len(b)
	if n > 0 {
		pos = f.Pos % (n + 1)
	}
	k := min(max(f.N, 0), n-pos)
	switch f.Op {
	case "insert":
		return append(append(append([]byte(nil), b[:pos]...), f.Val...), b[pos:]...)
	case "delete":
		return append(b[:pos], b[pos+k:]...)
	case "set":
		copy(b[pos:], f.Val)
	case "hex":
		return []byte(hex.EncodeToString(b))
	case "HEX":
		return []byte(strings.ToUpper(hex.EncodeToString(b)))
	case "0xhex":
		return []byte("0x" + hex.EncodeToString(b))
	case "base64":
		return []byte(base64.StdEncoding.EncodeToString(b))
	case "base64url":
		return []byte(base64.RawURLEncoding.EncodeToString(b))
	case "twice":
		return append(b, b...)
	case "repeat": // a piece again
		return append(append(append([]byte(nil), b[:pos+k]...), b[pos:pos+k]...), b[pos+k:]...)
	case "rotate":
		return append(append([]byte(nil), b[pos:]...), b[:pos]...)
	case "reverse":
		for i := 0; i < n/2; i++ {
			b[i], b[n-1-i] = b[n-1-i], b[i]
		}
	case "frame": // a length in front
		switch f.N % 5 {
		case 0:
			return append([]byte{byte(n)}, b...)
		case 1:
			return append(binary.BigEndian.AppendUint16(nil, uint16(n)), b...)
		case 2:
			return append(binary.LittleEndian.AppendUint16(nil, uint16(n)), b...)
		case 3:
			return append(binary.BigEndian.AppendUint32(nil, uint32(n)), b...)
		}
		return append(binary.LittleEndian.AppendUint32(nil, uint32(n)), b...)
	case "trim front":
		return bytes.TrimLeft(b, "\x00")
	case "trim end":
		return bytes.TrimRight(b, "\x00")
	case "zeros front":
		return append(make([]byte, f.N), b...)
	case "zeros end":
		return append(b, make([]byte, f.N)...)
	case "quote":
		return append(append([]byte{'"'}, b...), '"')
	case "line":
		return append(b, []string{"\n", "\r\n", "\x00", " "}[f.N%4]...)
	case "der":
		return append([]byte{[]byte{0x04, 0x30, 0x03, 0x02}[f.N%4], byte(n)}, b...)
	case "swap words":
		for i := 0; i+3 < n; i += 4 {
			b[i], b[i+1], b[i+2], b[i+3] = b[i+3], b[i+2], b[i+1], b[i]
		}
	case "complement":
		for i := range b {
			b[i] ^= 0xff
		}
	}
	return b
}

func genForm(t *rapid.T) Form {
	f := Form{Op: formOps[int(rapid.Uint16().Draw(t, "op"))%len(formOps)]}
	if rapid.IntRange(0, 2).Draw(t, "ins") == 2 {
		f.Op = "insert"
	}
	f.Pos = 0
	switch rapid.Uint8().Draw(t, "where") % 4 {
	case 0, 1:
	case 2:
		f.Pos = rapid.SampledFrom([]int{1, 16, 31, 32, 33, 47, 48, 49, 63, 64}).Draw(t, "pos")
	default:
		f.Pos = int(rapid.Uint16().Draw(t, "at"))
	}
	f.N = rapid.SampledFrom([]int{1, 2, 3, 4, 8, 15, 16, 17, 32, 33, 48}).Draw(t, "n")
	if rapid.IntRange(0, 9).Draw(t, "big") == 9 {
		f.N = 1 << rapid.IntRange(6, 12).Draw(t, "pow")
	}
	if f.Op == "insert" || f.Op == "set" {
		switch rapid.IntRange(0, 6).Draw(t, "val") {
		case 4, 5, 6:
			f.Val = dictRun(t)
		case 0:
			f.Val = genRaw(t, f.N)
		case 1:
			f.Val = bytes.Repeat([]byte{dictByte(t)}, f.N)
		case 2:
			f.Val = dictStr(t)
		default:
			for i := 0; i < f.N; i++ {
				f.Val = append(f.Val, dictByte(t))
			}
		}
	}
	return f
}

func genForms(t *rapid.T) (fs []Form) {
	for k := rapid.IntRange(1, 3).Draw(t, "nform"); k > 0; k-- {
		fs = append(fs, genForm(t))
	}
	return
}

func reshape(b []byte, fs []Form) []byte {
	for _, f := range fs {
		if len(b) < 1<<16 {
			b = f.apply(b)
		}
	}
	return b
}

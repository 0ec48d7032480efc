package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	xc "github.com/proximax-storage/go-xpx-crypto"
	"pgregory.net/rapid"

	"vf/ref"
)

// Sources of randomness of the types that callers use: whatever else a type can
// do, the bytes come from it in order, and when they end the call fails.

var stdKinds = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "bufio", "small bufio", "limit", "section", "multi", "tee", "pipe", "one byte", "half", "data with error", "file", "byte reader", "rewindable", "hashing", "drawing"}

// byteSource delivers single bytes as well.
type byteSource struct{ b []byte }

func (s *byteSource) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func (s *byteSource) ReadByte() (byte, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	c := s.b[0]
	s.b = s.b[1:]
	return c, nil
}

// busySource works with the library before it delivers: a generator built on
// the hash functions, say, or on another source.
type busySource struct {
	b    []byte
	n    int
	work func(n int)
}

func (s *busySource) Read(p []byte) (int, error) {
	if s.n++; s.n < 3 {
		s.work(s.n)
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 1+s.n*7%40)], s.b)
	if s.n == 1 {
		s.work(3)
	}
	s.b = s.b[n:]
	return n, nil
}

// seekSource can be asked for its place and be set back.
type seekSource struct{ *bytes.Reader }

func stdSource(kind string, data []byte, n int) (r io.Reader, done func()) {
	done = func() {}
	data = dup(data)
	switch kind {
	case "bytes.Reader":
		r = bytes.NewReader(data)
	case "bytes.Buffer":
		r = bytes.NewBuffer(data)
	case "strings.Reader":
		r = strings.NewReader(string(data))
	case "bufio":
		r = bufio.NewReader(bytes.NewReader(data))
	case "small bufio":
		r = bufio.NewReaderSize(bytes.NewReader(data), 16+n%30)
	case "limit":
		r = io.LimitReader(bytes.NewReader(append(dup(data), expand(uint64(n), 100)...)), int64(len(data)))
	case "section":
		r = io.NewSectionReader(bytes.NewReader(append(append(expand(uint64(n), n), data...), expand(uint64(n), 100)...)), int64(n), int64(len(data)))
	case "multi":
		var l []io.Reader
		for i, rest := 0, data; len(rest) > 0; i++ {
			k := min(len(rest), 1+(n+7*i)%40)
			l, rest = append(l, bytes.NewReader(rest[:k]), bytes.NewReader(nil)), rest[k:]
		}
		r = io.MultiReader(l...)
	case "tee":
		r = io.TeeReader(bytes.NewReader(data), io.Discard)
	case "pipe":
		pr, pw := io.Pipe()
		go func() {
			for len(data) > 0 {
				k := min(len(data), 1+n%40)
				if _, err := pw.Write(data[:k]); err != nil {
					return
				}
				data = data[k:]
			}
			pw.Close()
		}()
		r, done = pr, func() { pr.Close() }
	case "one byte":
		r = iotest.OneByteReader(bytes.NewReader(data))
	case "half":
		r = iotest.HalfReader(bytes.NewReader(data))
	case "data with error":
		r = iotest.DataErrReader(bytes.NewReader(data))
	case "file":
		f, w, err := os.Pipe() // far less than it holds
		must(err)
		_, err = w.Write(data)
		must(err)
		must(w.Close())
		r, done = f, func() { f.Close() }
	case "hashing":
		r = &busySource{b: data, work: func(i int) {
			for _, h := range []func([]byte) ([]byte, error){xc.HashesSha3_256, xc.HashesKeccak_256, xc.HashesRipemd160, xc.HashesSha_256} {
				_, err := h(expand(uint64(n+i), i%50))
				must(err)
			}
			_, err := xc.HashesSha3_512([]byte{byte(i)}, expand(uint64(n), i%50))
			must(err)
		}}
	case "drawing":
		r = &busySource{b: data, work: func(i int) {
			other := bytes.NewReader(expand(uint64(n+i), 48))
			switch (n + i) % 8 {
			case 0:
				kp, err := xc.NewEd25519KeyGenerator(other).GenerateKeyPair()
				must(err)
				_, err = signerOf(kp, n).Sign([]byte{byte(n)})
				must(err)
			case 1:
				kp := mustPair(expand(uint64(n), 32), nil, 0)
				e := xc.NewEd25519BlockCipher(kp, kp, other)
				ct, err := e.Encrypt(expand(uint64(i), i%40))
				must(err)
				_, err = e.Decrypt(ct)
				must(err)
			case 2, 3:
				_, err := xc.NewEd25519KeyGenerator(other).GenerateKeyPair()
				must(err)
			default:
				withRand(other, func() { xc.MathUtils.GetRandomByteArray(1 + n%40) })
			}
		}}
	case "byte reader":
		r = &byteSource{data}
	default:
		r = &seekSource{bytes.NewReader(data)}
	}
	return r, done
}

type stdCase struct {
	Kind string
	Data Blob
	N    int
	Ways []int
	A, B Hex  `json:",omitempty"`
	Msg  Blob `json:",omitempty"`
	How  int  `json:",omitempty"`
}

func genStd(unit int, party bool) func(t *rapid.T) stdCase {
	return func(t *rapid.T) stdCase {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		c := stdCase{Kind: rapid.SampledFrom(stdKinds).Draw(t, "kind"), N: rapid.IntRange(0, 300).Draw(t, "shape")}
		l := 0
		switch rapid.IntRange(0, 2).Draw(t, "length") {
		case 0: // just enough
			l = unit * n
		case 1:
			l = unit*rapid.IntRange(0, n).Draw(t, "units") + rapid.IntRange(-1, 1).Draw(t, "off")
		default:
			l = rapid.IntRange(0, unit*n+20).Draw(t, "len")
		}
		c.Data = genBlobN(t, max(0, l))
		if rapid.Bool().Draw(t, "stream") && l > 0 {
			c.Data = literal(genStream(t, l))
		}
		for i := 0; i < n; i++ {
			c.Ways = append(c.Ways, rapid.IntRange(0, 3).Draw(t, "way"))
		}
		if party {
			c.A, c.B, c.Msg, c.How = genPriv(t), genPriv(t), genBlob(t, 100), rapid.IntRange(0, 59).Draw(t, "how")
		}
		return c
	}
}

// steps runs the calls; each takes unit bytes or fails.
func (c stdCase) steps(unit int, rec *Rec, call func(i int, r io.Reader, next []byte) (bool, error)) error {
	data := c.Data.Bytes()
	r, done := stdSource(c.Kind, data, c.N)
	defer done()
	rec.Class("%s", c.Kind)
	rec.NT()
	for i := range c.Ways {
		var next []byte
		if len(data) >= unit {
			next, data = data[:unit], data[unit:]
		} else {
			data = nil
			rec.Class("source ends")
		}
		refused, err := call(i, r, next)
		switch {
		case next == nil && !refused:
			return fmt.Errorf("call %d on a %s succeeds although the source ended", i, c.Kind)
		case next != nil && refused:
			return fmt.Errorf("call %d on a %s is refused: %v", i, c.Kind, err)
		case next != nil && err != nil:
			return fmt.Errorf("call %d on a %s: %v", i, c.Kind, err)
		}
	}
	return nil
}

func checkK02std(c stdCase, rec *Rec) error {
	var one *xc.Ed25519KeyGenerator
	var kept []keptPair
	err := c.steps(32, rec, func(i int, r io.Reader, next []byte) (bool, error) {
		if one == nil {
			one = xc.NewEd25519KeyGenerator(r)
		}
		var kp *xc.KeyPair
		var err error
		switch c.Ways[i] {
		case 0, 1:
			kp, err = one.GenerateKeyPair()
		case 2: // another generator on the same source
			kp, err = xc.NewEd25519KeyGenerator(r).GenerateKeyPair()
		case 3:
			withRand(r, func() { kp, err = xc.NewRandomKeyPair() })
		}
		if err != nil {
			if kp != nil {
				return false, fmt.Errorf("a pair and the error %v", err)
			}
			return true, err
		}
		kept = append(kept, keptPair{kp, dup(next)})
		return false, first(same("private key", kp.PrivateKey.Raw, next), same("public key", kp.PublicKey.Raw, ref.Pub(kp.PrivateKey.Raw)))
	})
	return first(err, stillHold(kept))
}

func checkE05std(c stdCase, rec *Rec) error {
	a, b := owner(c.A, c.How), holder(ref.Pub(c.B), 0)
	msg := c.Msg.Bytes()
	var one xc.BlockCipher
	return c.steps(48, rec, func(i int, r io.Reader, next []byte) (bool, error) {
		if one == nil {
			one = xc.NewEd25519BlockCipher(a, b, r)
		}
		var ct []byte
		var err error
		switch c.Ways[i] {
		case 0, 1:
			ct, err = one.Encrypt(dup(msg))
		case 2:
			ct, err = xc.NewEd25519BlockCipher(a, b, r).Encrypt(dup(msg))
		case 3:
			withRand(r, func() { ct, err = cipherOf(a, b, nil, c.How).Encrypt(dup(msg)) })
		}
		if err != nil {
			if ct != nil {
				return false, fmt.Errorf("a ciphertext and the error %v", err)
			}
			return true, err
		}
		if next == nil {
			return false, nil
		}
		want, _ := ref.Encrypt(c.A, ref.Pub(c.B), next[:32], next[32:], msg)
		return false, same("ciphertext", ct, want)
	})
}

// helpers that take 64 bytes in one or several calls
func checkR01std(c stdCase, rec *Rec) (err error) {
	return c.steps(64, rec, func(i int, r io.Reader, next []byte) (refused bool, err error) {
		var got []byte
		withRand(r, func() {
			refused = try(func() {
				switch c.Ways[i] {
				case 0:
					got = xc.MathUtils.GetRandomByteArray(64)
				case 1:
					got = xc.MathUtils.GetRandomByteArray(1)
					got = append(dup(got), xc.MathUtils.GetRandomByteArray(63)...)
				case 2:
					got = dup(xc.MathUtils.GetRandomEncodedFieldElement(64).Raw)
				case 3:
					for j := 0; j < 8; j++ {
						got = binary.LittleEndian.AppendUint64(got, uint64(xc.MathUtils.GetRandomInt64()))
					}
				}
			})
		})
		if refused || next == nil {
			return refused, nil
		}
		want := dup(next)
		if c.Ways[i] == 2 {
			want[31] &= 0x7f
		}
		return false, same("bytes", got, want)
	})
}

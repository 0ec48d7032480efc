package main

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"fmt"
	"go/scanner"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// A dictionary, as fuzzers use one: literals of the sources under test, mixed
// into what the generators draw. It changes where the search looks, never what
// counts as a failure.
var dict struct {
	ints  []int      // 0..2^20, for lengths and counts
	bytes []byte     // values of one byte
	words []*big.Int // larger integers
	strs  [][]byte   // string literals, hex ones also decoded
	runs  [][]byte   // several byte literals of one condition or list
}

func loadDict() {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	var files []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	ints, words, strs, runs := map[int]bool{}, map[string]*big.Int{}, map[string]bool{}, map[string]bool{}
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(p, -1, len(src)), src, func(token.Position, string) {}, 0)
		fi, fw, fstr, fr := map[int]bool{}, map[string]*big.Int{}, map[string]bool{}, map[string]bool{}
		// bytes that the source compares with one after the other, or lists
		var equal, list []byte
		prev, listed := token.ILLEGAL, false
		var left *big.Int // the number before
		flush := func(b *[]byte) {
			if len(*b) > 1 && len(*b) <= 64 && len(bytes.Trim(*b, "\x00")) > 0 {
				fr[string(*b)] = true
				for n := 2; b == &equal && n < len(*b) && n < 9; n++ {
					fr[string((*b)[:n])] = true
				}
			}
			*b = nil
		}
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			small := func() (byte, bool) {
				if tok == token.CHAR {
					c, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\'')
					return byte(c), err == nil && c < 256
				}
				v, err := strconv.ParseInt(lit, 0, 64)
				return byte(v), tok == token.INT && err == nil && v >= 0 && v < 256
			}
			v, isByte := small()
			switch {
			case isByte && (prev == token.EQL || prev == token.NEQ):
				equal = append(equal, v)
			case isByte && (prev == token.LBRACE || prev == token.COMMA && listed):
				list, listed = append(list, v), true
			case tok == token.LBRACE || tok == token.SEMICOLON && lit != "\n" || tok == token.RETURN:
				flush(&equal)
			}
			if !isByte && tok != token.COMMA || tok == token.LBRACE {
				flush(&list)
				listed = false
			}
			before := prev
			prev = tok
			add := func(v *big.Int) {
				if v.BitLen() <= 20 {
					fi[int(v.Int64())] = true
				} else if v.BitLen() <= 512 {
					fw[v.String()] = v
				}
			}
			switch tok {
			case token.INT:
				v, ok := new(big.Int).SetString(lit, 0)
				if !ok {
					continue
				}
				add(v)
				if left != nil && left.BitLen() <= 20 && v.BitLen() <= 20 { // 1<<15, 4*1024
					switch {
					case before == token.SHL && v.BitLen() <= 9:
						add(new(big.Int).Lsh(left, uint(v.Int64())))
					case before == token.MUL:
						add(new(big.Int).Mul(left, v))
					}
				}
				left = v
				continue
			case token.SHL, token.MUL:
				continue
			case token.CHAR:
				if c, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
					fi[int(c)] = true
				}
			case token.STRING:
				if u, err := strconv.Unquote(lit); err == nil && len(u) > 0 && len(u) <= 200 {
					fstr[u] = true
				}
			}
			left = nil
		}
		if len(fi)+len(fw) > 1000 { // a table of constants
			continue
		}
		for k := range fi {
			ints[k] = true
		}
		for k, v := range fw {
			words[k] = v
		}
		for k := range fstr {
			strs[k] = true
		}
		for k := range fr {
			runs[k] = true
		}
	}
	for k := range ints {
		dict.ints = append(dict.ints, k)
		if k < 256 {
			dict.bytes = append(dict.bytes, byte(k))
		}
	}
	sort.Ints(dict.ints)
	sort.Slice(dict.bytes, func(i, j int) bool { return dict.bytes[i] < dict.bytes[j] })
	var wk []string
	for k := range words {
		wk = append(wk, k)
	}
	sort.Strings(wk)
	for _, k := range wk {
		dict.words = append(dict.words, words[k])
	}
	var rk []string
	for k := range runs {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	for _, k := range rk {
		dict.runs = append(dict.runs, []byte(k))
	}
	var sk []string
	for k := range strs {
		sk = append(sk, k)
	}
	sort.Strings(sk)
	for _, k := range sk {
		dict.strs = append(dict.strs, []byte(k))
		if d, err := hex.DecodeString(k); err == nil && len(d) > 0 {
			dict.strs = append(dict.strs, d)
		}
		if d, ok := new(big.Int).SetString(k, 10); ok && d.BitLen() > 20 && d.BitLen() <= 512 && d.Sign() > 0 {
			dict.words = append(dict.words, d)
		}
	}
	loadNovel()
}

// pick draws one of the literals, and half of the time one that the sources did
// not have when dictbase.txt was written, where there are such.
func pick[T any](t *rapid.T, all, novel []T) (v T) {
	m := mix(rapid.Uint16().Draw(t, "dict"))
	k := m.next()
	if len(novel) > 0 && k%2 == 0 {
		all = novel
	}
	if len(all) == 0 {
		return
	}
	return all[k/2%uint64(len(all))]
}

func dictInt(t *rapid.T) int { return pick(t, dict.ints, novel.ints) }

func dictByte(t *rapid.T) byte { return pick(t, dict.bytes, novel.bytes) }

func dictWord(t *rapid.T) *big.Int {
	if rapid.IntRange(0, 3).Draw(t, "small") == 3 || len(dict.words) == 0 {
		return bi(int64(dictInt(t)))
	}
	return pick(t, dict.words, novel.words)
}

// dictRun gives several bytes that the sources name in a row.
func dictRun(t *rapid.T) []byte {
	if len(dict.runs) == 0 {
		return dictStr(t)
	}
	return pick(t, dict.runs, novel.runs)
}

func dictStr(t *rapid.T) []byte {
	if len(dict.runs) > 0 && rapid.IntRange(0, 3).Draw(t, "run") == 3 {
		return dictRun(t)
	}
	return pick(t, dict.strs, novel.strs)
}

// novel holds what dictbase.txt does not list.
var novel = struct {
	ints  []int
	bytes []byte
	words []*big.Int
	strs  [][]byte
	runs  [][]byte
	huge  []int // lengths above those drawn elsewhere
}{}

//go:embed dictbase.txt
var dictBase string

// dictLines lists the dictionary, as dictbase.txt does.
func dictLines() (l []string) {
	for _, v := range dict.ints {
		l = append(l, fmt.Sprintf("int %d", v))
	}
	for _, v := range dict.words {
		l = append(l, fmt.Sprintf("word %v", v))
	}
	for _, v := range dict.strs {
		l = append(l, fmt.Sprintf("str %x", v))
	}
	for _, v := range dict.runs {
		l = append(l, fmt.Sprintf("run %x", v))
	}
	return
}

func loadNovel() {
	base := map[string]bool{}
	for _, l := range strings.Split(dictBase, "\n") {
		base[l] = true
	}
	for _, v := range dict.ints {
		if !base[fmt.Sprintf("int %d", v)] {
			novel.ints = append(novel.ints, v)
			if v < 256 {
				novel.bytes = append(novel.bytes, byte(v))
			}
			if v > 100000 {
				novel.huge = append(novel.huge, v)
			}
		}
	}
	for _, v := range dict.words {
		if !base[fmt.Sprintf("word %v", v)] {
			novel.words = append(novel.words, v)
			if v.BitLen() <= 24 {
				novel.huge = append(novel.huge, int(v.Int64()))
			}
		}
	}
	for _, v := range dict.strs {
		if !base[fmt.Sprintf("str %x", v)] {
			novel.strs = append(novel.strs, v)
		}
	}
	for _, v := range dict.runs {
		if !base[fmt.Sprintf("run %x", v)] {
			novel.runs = append(novel.runs, v)
		}
	}
}

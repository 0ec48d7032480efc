package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Hex is a byte string that is written as hex in cases and replay files.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) error {
	d, err := hex.DecodeString(string(b))
	*h = d
	return err
}

// Rec collects what one case exercised.
type Rec struct {
	classes map[string]int
	nt      bool
}

// Known turns a violation that known_findings.txt lists under this key into a
// counted finding; any other violation stays what it is.
func (r *Rec) Known(prop, key string, err error) error {
	if err == nil || knownFindings()[prop+" "+key] == "" {
		return err
	}
	r.classes[findingClass+key]++
	return nil
}

const findingClass = "known finding: "

// knownFindings reads the lines "known: property=ID key=KEY what fails".
var knownFindings = sync.OnceValue(func() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(rootDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			m[f[1][9:]+" "+f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
	return m
})

// Class counts the case under a class of the distribution.
func (r *Rec) Class(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.classes[format]++
}

// NT marks the case as non-trivial by the rule of its facet.
func (r *Rec) NT() { r.nt = true }

// Facet is one executable form of (a part of) a property.
type Facet struct {
	Name     string
	Rule     string
	Quick    int // cases per run over all shards
	Thorough int
	run      func(w *worker, f *Facet) *failure
	replay   func(raw json.RawMessage) error
}

type Prop struct {
	ID          string
	Race        bool // run under the race detector
	Isolate     bool // cases can disturb later ones: confirm and shrink failures in processes of their own
	Facets      []*Facet
	Assumptions []string
}

type failure struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Tier     string          `json:"tier"`
	Seed     uint64          `json:"seed"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Mode     string          `json:"mode,omitempty"`
}

type facetOut struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Guided      guidedStat     `json:"guided"`
}

type workerOut struct {
	Facets   map[string]*facetOut `json:"facets"`
	Failures []*failure           `json:"failures"`
	Done     bool                 `json:"done"`
}

type worker struct {
	prop   *Prop
	tier   string
	seed   uint64
	shard  int
	shards int
	crumb  string // file that names the running case, "" for none
	out    workerOut

	mu      sync.Mutex
	running *failure // the case that runs, with its start
	since   time.Time
}

// caseLimit is far above what any case takes: the longest take about a second.
const caseLimit = 150 * time.Second

// watch ends the worker with a failure when a case does not finish.
func (w *worker) watch(done func(*failure)) {
	for {
		time.Sleep(2 * time.Second)
		w.mu.Lock()
		f, since := w.running, w.since
		w.mu.Unlock()
		if f != nil && time.Since(since) > caseLimit {
			f.Error = fmt.Sprintf("the case has not finished after %v", caseLimit)
			f.Mode = modeHang
			done(f)
		}
	}
}

// modeHang marks a case that does not finish.
const modeHang = "the case does not finish; replay waits for it as long"

func (w *worker) begin(f *failure) {
	w.mu.Lock()
	w.running, w.since = f, time.Now()
	w.mu.Unlock()
}

// maxDistinct limits how many distinct cases are remembered per facet and shard.
const maxDistinct = 150000

// F builds a facet from a generator, an oracle and fixed edge cases.
func F[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Rec) error, edges ...C) *Facet {
	f := &Facet{Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	f.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		return guarded(check, c, &Rec{classes: map[string]int{}})
	}
	f.run = func(w *worker, f *Facet) *failure {
		fo := &facetOut{Classes: map[string]int{}}
		w.out.Facets[f.Name] = fo
		rec := &Rec{classes: fo.Classes}
		seen := map[uint64]bool{}
		var last *failure
		counting := true
		one := func(c C) error {
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			if w.crumb != "" {
				b, _ := json.Marshal(w.fail(f, raw, "the process died while running this case"))
				os.WriteFile(w.crumb, b, 0o644)
			}
			rec.nt = false
			w.begin(w.fail(f, raw, ""))
			defer w.begin(nil)
			switch {
			case last == nil || !w.prop.Isolate:
				if err = guarded(check, c, rec); err != nil && w.prop.Isolate {
					if e := isolated(w.fail(f, raw, "")); e != nil {
						err = e
					} else {
						last = w.fail(f, raw, err.Error())
						last.Mode = modeShard
					}
				}
			case last.Mode != "":
				err = nil // no shrinking: it depends on the cases before
			default:
				err = isolated(w.fail(f, raw, ""))
			}
			if counting {
				fo.Evaluations++
				if rec.nt {
					fo.NonTrivial++
					h := fnv.New64a()
					h.Write([]byte(f.Name))
					h.Write(raw)
					if len(seen) < maxDistinct {
						seen[h.Sum64()] = true
					}
				}
				if len(fo.Samples) < 2 || (rec.nt && len(fo.Samples) < 4) {
					if len(raw) < 1500 {
						fo.Samples = append(fo.Samples, map[string]any{"facet": f.Name, "case": json.RawMessage(raw)})
					}
				}
			}
			if err != nil {
				if last == nil || last.Mode == "" {
					last = w.fail(f, raw, err.Error())
				}
				counting = false
			}
			return err
		}
		defer func() {
			for h := range seen {
				fo.Hashes = append(fo.Hashes, h)
			}
		}()
		for i, c := range edges {
			if i%w.shards == w.shard {
				if one(c) != nil {
					return last
				}
			}
		}
		total := f.Quick * max(1, quickTimes[w.prop.ID])
		if w.tier == "thorough" {
			total = f.Thorough
		}
		if v, err := strconv.ParseFloat(os.Getenv("VF_SCALE"), 64); err == nil && v > 0 {
			total = int(v*float64(total)) + 1
		}
		n := total / w.shards
		if w.shard < total%w.shards {
			n++
		}
		if n == 0 {
			return nil
		}
		sum := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", w.seed, w.prop.ID, f.Name, w.shard)))
		seed := uint64(1)
		for _, b := range sum[:7] {
			seed = seed<<8 | uint64(b)
		}
		setFlag("rapid.seed", strconv.FormatUint(seed, 10))
		setFlag("rapid.checks", strconv.Itoa(n))
		t := &tbStub{}
		t.run(func() {
			rapid.Check(t, func(rt *rapid.T) {
				if err := one(gen(rt)); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
		if t.failed && last == nil {
			// not the code under test: the generator itself failed
			fmt.Fprintf(os.Stderr, "harness error in %s/%s: %s\n", w.prop.ID, f.Name, t.log.String())
			os.Exit(3)
		}
		if last == nil && !t.failed && !w.prop.Race && covInit() {
			n = guidedShare(w.tier, n)
			fo.Guided = guided(n, seed, func(rt *rapid.T) {
				c := gen(rt)
				if err := one(c); err != nil {
					rt.Fatalf("%v", err)
				}
			})
			if fo.Guided.failed && last == nil {
				fmt.Fprintf(os.Stderr, "harness error in the guided phase of %s/%s\n", w.prop.ID, f.Name)
				os.Exit(3)
			}
		}
		return last
	}
	return f
}

// quickTimes multiplies the quick counts of properties whose cases are cheap.
var quickTimes = map[string]int{
	"S02": 2, "S04": 4, "S05": 2, "N01": 8, "K01": 3, "K02": 3, "K03": 3, "E02": 2, "F02": 2, "F03": 2, "Q01": 2,
	"H01": 3, "G01": 3, "G02": 2, "G04": 3, "G05": 3, "G06": 5, "M01": 4, "M02": 2, "R01": 3, "T01": 4,
}

// guidedShare is the number of guided cases that follow n random ones.
func guidedShare(tier string, n int) int {
	if v, err := strconv.ParseFloat(os.Getenv("VF_GUIDED"), 64); err == nil {
		return int(v * float64(n))
	}
	if tier == "thorough" {
		return n
	}
	return n/2 + 1
}

func (w *worker) fail(f *Facet, raw json.RawMessage, msg string) *failure {
	return &failure{Property: w.prop.ID, Facet: f.Name, Error: msg, Case: raw, Tier: w.tier, Seed: w.seed, Shard: w.shard, Shards: w.shards}
}

func guarded[C any](check func(C, *Rec) error, c C, rec *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(harnessError); ok {
				fmt.Fprintf(os.Stderr, "harness error: %s\n%s\n", string(he), debug.Stack())
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	return check(c, rec)
}

// harnessError is a panic of the harness that is no statement on the code under test.
type harnessError string

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "go-xpx-crypto") && !strings.HasPrefix(l, "\t") {
			out = append(out, l)
			if i+1 < len(lines) {
				out = append(out, lines[i+1])
			}
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

// modeShard marks a failure that needs the cases before it.
const modeShard = "shard: the case alone passes in a fresh process, the failure depends on the cases before it; replay runs the shard again"

// isolated runs a case in a process of its own.
func isolated(fl *failure) error {
	file, err := os.CreateTemp("", "vf-case-")
	must(err)
	defer os.Remove(file.Name())
	b, err := json.Marshal(fl)
	must(err)
	file.Write(b)
	file.Close()
	self, err := os.Executable()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), caseLimit-20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "replay", file.Name())
	cmd.Env = workerEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s", strings.TrimSpace(strings.Split(string(out), "VIOLATION ")[0]))
}

func setFlag(name, v string) {
	if err := flag.Set(name, v); err != nil {
		panic(err)
	}
}

// tbStub is the test handle given to rapid; the worker is no go test.
type tbStub struct {
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (t *tbStub) run(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(tbStop); !ok {
				panic(p)
			}
		}
	}()
	f()
}
func (t *tbStub) Helper()      {}
func (t *tbStub) Name() string { return "vf" }
func (t *tbStub) Logf(format string, a ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, format+"\n", a...)
	}
}
func (t *tbStub) Log(a ...any)                   { t.Logf("%s", fmt.Sprintln(a...)) }
func (t *tbStub) Skipf(format string, a ...any)  { panic(tbStop{}) }
func (t *tbStub) Skip(a ...any)                  { panic(tbStop{}) }
func (t *tbStub) SkipNow()                       { panic(tbStop{}) }
func (t *tbStub) Errorf(format string, a ...any) { t.failed = true; t.Logf(format, a...) }
func (t *tbStub) Error(a ...any)                 { t.failed = true; t.Log(a...) }
func (t *tbStub) Fatalf(format string, a ...any) { t.Errorf(format, a...); panic(tbStop{}) }
func (t *tbStub) Fatal(a ...any)                 { t.Error(a...); panic(tbStop{}) }
func (t *tbStub) FailNow()                       { t.failed = true; panic(tbStop{}) }
func (t *tbStub) Fail()                          { t.failed = true }
func (t *tbStub) Failed() bool                   { return t.failed }

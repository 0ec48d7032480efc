// vf is the property-based checker for go-xpx-crypto.
//
//	vf check ID      run every facet of a property over sharded worker processes
//	vf worker ...    one shard (started by check)
//	vf replay FILE   run one saved case again
//	vf alone         run one operation with fresh objects (used by X02 and X03)
//	vf selftest      check the reference models
//	vf list          the properties and facets
//	vf dict          the literals found in the sources under test
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"vf/ref"
)

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("twice: " + p.ID)
	}
	props[p.ID] = p
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "8s")
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: vf check|worker|replay|selftest|list")
		os.Exit(2)
	}
	loadDict()
	loadRare()
	switch args[0] {
	case "mine":
		n, err := strconv.Atoi(args[1])
		must(err)
		mine(uint(n), runtime.NumCPU())
	case "dict":
		fmt.Println(strings.Join(dictLines(), "\n"))
	case "selftest":
		if err := first(ref.SelfTest(), rareHolds()); err != nil {
			fmt.Println("selftest:", err)
			os.Exit(2)
		}
		fmt.Println("selftest ok, unbound internals:", unbound())
	case "list":
		for _, id := range propIDs() {
			for _, f := range props[id].Facets {
				fmt.Printf("%s %-28s quick=%-7d thorough=%-8d %s\n", id, f.Name, f.Quick, f.Thorough, f.Rule)
			}
		}
	case "check":
		os.Exit(driver(args[1]))
	case "worker":
		workerMain(args[1:])
	case "alone":
		aloneMain()
	case "replay":
		os.Exit(replayMain(args[1]))
	default:
		os.Exit(2)
	}
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// worker PROP SHARD SHARDS SEED TIER OUT CRUMB
func workerMain(a []string) {
	atoi := func(s string) int { n, err := strconv.Atoi(s); must(err); return n }
	seed, err := strconv.ParseUint(a[3], 10, 64)
	must(err)
	w := &worker{prop: props[a[0]], shard: atoi(a[1]), shards: atoi(a[2]), seed: seed, tier: a[4], crumb: a[6]}
	if w.crumb == "-" {
		w.crumb = ""
	}
	w.out.Facets = map[string]*facetOut{}
	quietStdout()
	if !w.prop.Race {
		runtime.GOMAXPROCS(2)
	}
	go w.watch(func(fl *failure) {
		b, err := json.Marshal(&workerOut{Failures: []*failure{fl}, Done: true})
		must(err)
		must(os.WriteFile(a[5], b, 0o644))
		os.Exit(0)
	})
	only := os.Getenv("VF_FACET")
	for _, f := range w.prop.Facets {
		if only != "" && f.Name != only {
			continue
		}
		t0 := time.Now()
		if fl := f.run(w, f); fl != nil {
			w.out.Failures = append(w.out.Failures, fl)
			break
		}
		if os.Getenv("VF_TIMES") != "" && w.shard == 0 {
			fmt.Fprintf(os.Stderr, "%s %s %.2fs\n", w.prop.ID, f.Name, time.Since(t0).Seconds())
		}
	}
	w.out.Done = true
	b, err := json.Marshal(&w.out)
	must(err)
	must(os.WriteFile(a[5], b, 0o644))
}

// the code under test prints its rejections
func quietStdout() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
}

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[fl.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		return 2
	}
	for _, f := range p.Facets {
		if f.Name == fl.Facet {
			stdout := os.Stdout
			quietStdout()
			if fl.Mode == modeHang {
				time.AfterFunc(caseLimit, func() {
					fmt.Fprintf(stdout, "%s/%s: %s\nVIOLATION property=%s replay=%s\n", fl.Property, fl.Facet, fl.Error, fl.Property, file)
					os.Exit(1)
				})
			}
			var e error
			n := 1
			if p.Race {
				n = 50
			}
			for i := 0; i < n && e == nil; i++ {
				e = f.replay(fl.Case)
			}
			if e == nil && fl.Mode == modeShard {
				w := &worker{prop: p, shard: fl.Shard, shards: fl.Shards, seed: fl.Seed, tier: fl.Tier}
				w.out.Facets = map[string]*facetOut{}
				for _, g := range p.Facets {
					if last := g.run(w, g); last != nil {
						e = fmt.Errorf("%s: %s", last.Facet, last.Error)
						break
					}
				}
			}
			os.Stdout = stdout
			if e != nil {
				fmt.Printf("%s/%s: %v\n", fl.Property, fl.Facet, e)
				fmt.Printf("VIOLATION property=%s replay=%s\n", fl.Property, file)
				return 1
			}
			fmt.Printf("%s/%s: the case passes\n", fl.Property, fl.Facet)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "unknown facet")
	return 2
}

func rootDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

type shardResult struct {
	out   *workerOut
	err   error
	code  int
	errs  string
	crumb *failure
}

func workerEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "RAPID_") && !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			env = append(env, e)
		}
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
}

func runShard(ctx context.Context, p *Prop, dir string, shard, shards int, seed uint64, tier string, crumbs bool) (r shardResult) {
	self, err := os.Executable()
	if err != nil {
		r.err = err
		return
	}
	outFile := filepath.Join(dir, fmt.Sprintf("out%d.json", shard))
	crumb := "-"
	if crumbs {
		crumb = filepath.Join(dir, fmt.Sprintf("crumb%d.json", shard))
	}
	cmd := exec.CommandContext(ctx, self, "worker", p.ID, strconv.Itoa(shard), strconv.Itoa(shards),
		strconv.FormatUint(seed, 10), tier, outFile, crumb)
	cmd.Env = workerEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	r.err = cmd.Run()
	runtime.UnlockOSThread()
	r.errs = stderr.String()
	if len(r.errs) > 6000 {
		r.errs = r.errs[:3000] + "\n...\n" + r.errs[len(r.errs)-3000:]
	}
	r.code = cmd.ProcessState.ExitCode()
	if b, err := os.ReadFile(outFile); err == nil {
		var o workerOut
		if json.Unmarshal(b, &o) == nil && o.Done {
			r.out = &o
		}
	}
	if crumbs {
		if b, err := os.ReadFile(crumb); err == nil {
			var f failure
			if json.Unmarshal(b, &f) == nil {
				r.crumb = &f
			}
		}
	}
	return
}

func driver(id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	if err := first(ref.SelfTest(), rareHolds()); err != nil {
		fmt.Fprintln(os.Stderr, "reference model self test:", err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	shards := 8
	if p.Race {
		shards = 4
	}
	res := make([]shardResult, shards)
	done := make(chan int)
	for i := 0; i < shards; i++ {
		go func() {
			res[i] = runShard(ctx, p, dir, i, shards, seed, tier, p.Race)
			done <- i
		}()
	}
	for range res {
		<-done
	}
	var fails []*failure
	broken := ""
	for i := range res {
		r := &res[i]
		if r.out != nil && r.err == nil {
			fails = append(fails, r.out.Failures...)
			if os.Getenv("VF_TIMES") != "" {
				fmt.Fprint(os.Stderr, r.errs)
			}
			continue
		}
		if ctx.Err() != nil {
			broken = "time limit reached: inconclusive"
			continue
		}
		if f := diagnoseDeath(ctx, p, dir, i, shards, seed, tier, r); f != nil {
			fails = append(fails, f)
		} else {
			broken = fmt.Sprintf("worker %d ended with %v\n%s", i, r.err, r.errs)
		}
	}
	writeEvidence(p, tier, seed, res, len(fails), time.Since(start).Seconds())
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		f := fails[0]
		rdir := filepath.Join(rootDir(), "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", f.Property, f.Facet))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		if self, err := os.Executable(); err == nil && f.Mode == "" {
			cmd := exec.CommandContext(ctx, self, "replay", path)
			cmd.Env = workerEnv()
			if out, err := cmd.CombinedOutput(); err == nil {
				f.Mode = modeShard
				b, _ = json.MarshalIndent(f, "", " ")
				os.WriteFile(path, append(b, '\n'), 0o644)
				_ = out
			}
		}
		fmt.Printf("%s/%s: %s\ncase: %s\n", f.Property, f.Facet, f.Error, clip(string(f.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	for _, l := range foundKnown(id, res) {
		fmt.Println(l)
	}
	fmt.Printf("%s held on everything explored (%s, seed %d, %.1fs)\n", id, tier, seed, time.Since(start).Seconds())
	return 0
}

// foundKnown names the listed findings that the run came across.
func foundKnown(id string, res []shardResult) []string {
	var lines []string
	for k, what := range knownFindings() {
		key, ok := strings.CutPrefix(k, id+" ")
		if !ok {
			continue
		}
		for i := range res {
			found := false
			if res[i].out != nil {
				for _, fo := range res[i].out.Facets {
					found = found || fo.Classes[findingClass+key] > 0
				}
			}
			if found {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, what))
				break
			}
		}
	}
	sort.Strings(lines)
	return lines
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// diagnoseDeath decides whether a worker died because the code under test broke
// the property (a data race report, or a fatal runtime error that no recover
// catches and that repeats on the same case) or for another reason.
func diagnoseDeath(ctx context.Context, p *Prop, dir string, i, shards int, seed uint64, tier string, r *shardResult) *failure {
	fatal := func(r *shardResult) string {
		for _, l := range strings.Split(r.errs, "\n") {
			if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") ||
				strings.Contains(l, "WARNING: DATA RACE") {
				if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
					continue
				}
				return l
			}
		}
		// a panic in a goroutine that the code under test started
		if strings.Contains(r.errs, "panic: ") && strings.Contains(r.errs, "go-xpx-crypto.") {
			return "panic outside of the case"
		}
		return ""
	}
	if r.code == 3 {
		return nil
	}
	msg := fatal(r)
	if msg == "" {
		return nil
	}
	if r.crumb == nil {
		r2 := runShard(ctx, p, dir, i, shards, seed, tier, true)
		if r2.out != nil || fatal(&r2) == "" || r2.crumb == nil {
			return nil
		}
		r = &r2
	}
	f := r.crumb
	f.Error = msg + "\n" + r.errs
	if p.Race {
		f.Mode = "replay runs the case repeatedly under the race detector"
	}
	return f
}

func writeEvidence(p *Prop, tier string, seed uint64, res []shardResult, violations int, wall float64) {
	facets := map[string]any{}
	var evals int
	distinct := map[uint64]bool{}
	var samples []any
	var rules []string
	guidedCases := 0
	for _, f := range p.Facets {
		e, nt := 0, 0
		classes := map[string]int{}
		d := map[uint64]bool{}
		ns := 0
		var gs guidedStat
		for i := range res {
			if res[i].out == nil || res[i].out.Facets[f.Name] == nil {
				continue
			}
			fo := res[i].out.Facets[f.Name]
			e += fo.Evaluations
			nt += fo.NonTrivial
			gs.Cases += fo.Guided.Cases
			gs.Corpus += fo.Guided.Corpus
			gs.Edges = max(gs.Edges, fo.Guided.Edges)
			gs.Near = max(gs.Near, fo.Guided.Near)
			for k, v := range fo.Classes {
				classes[k] += v
			}
			for _, h := range fo.Hashes {
				d[h] = true
				distinct[h] = true
			}
			for _, s := range fo.Samples {
				if ns < 4 {
					samples = append(samples, s)
					ns++
				}
			}
		}
		evals += e
		facets[f.Name] = map[string]any{"evaluations": e, "nontrivial": nt, "distinct_nontrivial": len(d), "classes": classes, "rule": f.Rule,
			"guided": map[string]any{"cases": gs.Cases, "kept_for_new_coverage": gs.Corpus, "edges_in_a_shard": gs.Edges, "comparison_distances_in_a_shard": gs.Near}}
		guidedCases += gs.Cases
		rules = append(rules, f.Name+": "+f.Rule)
	}
	ass := append([]string{
		"the reference models in /verif/harness/ref are right (they check themselves against each other, RFC 8032 and published vectors at the start of every run)",
	}, p.Assumptions...)
	if u := unbound(); len(u) > 0 {
		ass = append(ass, "internals that could not be bound in this tree, so facets on them were left out: "+strings.Join(u, ", "))
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule":    "cases are drawn by rapid from structured generators, at random and then guided by the coverage of the package under test; a case counts as non-trivial as follows. " + strings.Join(rules, " | "),
			"samples": samples, "facets": facets, "guided_evaluations": guidedCases,
		},
		"assumptions": ass, "wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	edir := filepath.Join(rootDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	os.WriteFile(filepath.Join(edir, p.ID+".json"), append(b, '\n'), 0o644)
}

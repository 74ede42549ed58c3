package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- properties

// Obs collects what happened while one case ran.
type Obs struct {
	failure    string
	nontrivial bool
	skipped    bool
	labels     []string
	known      []string
}

// Fail records a violation. Only the first one counts.
func (o *Obs) Fail(format string, a ...any) {
	if o.failure == "" {
		o.failure = fmt.Sprintf(format, a...)
	}
}
func (o *Obs) Failed() bool    { return o.failure != "" }
func (o *Obs) NonTrivial()     { o.nontrivial = true }
func (o *Obs) Label(l string)  { o.labels = append(o.labels, l) }
func (o *Obs) Skip(why string) { o.skipped = true; o.Label("skip:" + why) }
func (o *Obs) Known(id string) { o.known = append(o.known, id) }
func (o *Obs) LabelIf(b bool, l string) {
	if b {
		o.Label(l)
	}
}

// Family is one generator plus one oracle.
type Family struct {
	Name            string
	Quick, Thorough int
	Rule            string
	gen             func(*rapid.T) any
	run             func(any, *Obs)
	decode          func([]byte) (any, error)
}

// Fam builds a Family for the case type C, which has to survive JSON.
func Fam[C any](name string, quick, thorough int, rule string, gen func(*G) C, run func(C, *Obs)) Family {
	return Family{
		Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		gen: func(t *rapid.T) any { return gen(&G{t: t}) },
		run: func(c any, o *Obs) { run(c.(C), o) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
}

type Prop struct {
	ID       string
	Families []Family
	Assume   []string
	Journal  bool // a failing case may end the process, and not every time
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ------------------------------------------------------------- known findings

type knownFinding struct {
	Property string          `json:"property"`
	ID       string          `json:"id"`
	What     string          `json:"what"`
	Status   string          `json:"status"` // "known" or "fixed"
	Commit   string          `json:"commit,omitempty"`
	Family   string          `json:"family,omitempty"`
	Witness  json.RawMessage `json:"witness,omitempty"`
}

var verifDir = "/verif"

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var res []knownFinding
	for i, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		var k knownFinding
		if e := json.Unmarshal([]byte(line), &k); e != nil {
			die(2, "known_findings.jsonl line %d: %v", i+1, e)
		}
		res = append(res, k)
	}
	return res
}

var knownIDs = map[string]bool{}

// isKnown reports whether the finding is listed, so that a case that matches
// its signature is counted instead of reported.
func isKnown(id string) bool { return knownIDs[id] }

// --------------------------------------------------------------------- report

type failure struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type famStat struct {
	Family     string            `json:"family"`
	Evals      int               `json:"evaluations"`
	NonTrivial int               `json:"nontrivial"`
	Distinct   int               `json:"distinct_nontrivial"`
	Skipped    int               `json:"discarded"`
	Labels     map[string]int    `json:"classes"`
	Known      map[string]int    `json:"known,omitempty"`
	Samples    []json.RawMessage `json:"samples"`
	Rule       string            `json:"rule"`
	hashes     map[uint64]struct{}
}

type workerOut struct {
	Stats   []*famStat
	Hashes  map[string][]uint64
	Failure *failure
	Error   string
}

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{fmt.Sprintf("cannot encode case: %v", err)})
	}
	return b
}

type harnessError struct{ msg string }

// runCase runs one case; a panic of the code under test is a violation.
func runCase(f *Family, c any) (o *Obs) {
	o = &Obs{}
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			o.failure = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f.run(c, o)
	return o
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// ------------------------------------------------------------------- watchdog

type inflight struct {
	fam  *Family
	c    any
	seq  uint64
	done bool
}

var current atomic.Pointer[inflight]

const slowCase = 200 * time.Millisecond

const (
	hangCPU  = 25 * time.Second
	hangRSS  = 6 << 30
	pageSize = 4096
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * pageSize
}

// watch reports a case that burns CPU time (not wall time) or memory far
// beyond anything a terminating case of the generated sizes can need.
func watch(report func(*inflight, string)) {
	var last *inflight
	var since time.Duration
	var wall time.Time
	for {
		time.Sleep(100 * time.Millisecond)
		cur := current.Load()
		if cur == nil || cur != last {
			last = cur
			since, wall = cpuTime(), time.Now()
			continue
		}
		if d := cpuTime() - since; time.Since(wall) > 240*time.Second && d < 3*time.Second {
			report(cur, "does not terminate: one case waits for ever")
			return
		}
		if d := cpuTime() - since; d > hangCPU {
			report(cur, fmt.Sprintf("does not terminate: one case used %v of CPU time", d.Round(time.Second)))
			return
		}
		if rss() > hangRSS {
			report(cur, "does not terminate: one case uses unbounded memory")
			return
		}
	}
}

// deathOf tells why the runtime ended a process because of what the code under
// test did.
func deathOf(stderr string) string {
	for _, d := range [][2]string{
		{"stack overflow", "endless recursion"},
		{"WARNING: DATA RACE", "data race"},
		{"fatal error: concurrent map", "data race"},
		{"fatal error: sync: ", "misused lock"},
	} {
		if strings.Contains(stderr, d[0]) {
			return d[1]
		}
	}
	return ""
}

// quickScale brings the quick tier of each property to about 5-12 s on 8 cores.
func quickScale(id string) int {
	switch id {
	case "C30":
		return 2
	case "C15", "C29":
		return 4
	case "C28":
		return 9
	case "C16", "C19", "C20", "C21":
		return 24
	case "C01", "C05", "C06", "C17", "C18", "C22", "C23":
		return 14
	}
	return 8
}

// --------------------------------------------------------------------- worker

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

func (f *fakeTB) Helper()                  {}
func (f *fakeTB) Name() string             { return f.name }
func (f *fakeTB) Logf(s string, a ...any)  {}
func (f *fakeTB) Log(a ...any)             {}
func (f *fakeTB) Skipf(s string, a ...any) {}
func (f *fakeTB) Skip(a ...any)            {}
func (f *fakeTB) SkipNow()                 {}
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.logs = append(f.logs, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.logs = append(f.logs, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

type tbStop struct{}

func seedFor(seed uint64, parts ...string) uint64 {
	h := sha256.New()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	v := binary.LittleEndian.Uint64(h.Sum(nil)) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func hash64(b []byte) uint64 {
	h := sha256.Sum256(b)
	return binary.LittleEndian.Uint64(h[:8])
}

func worker(id, tier string, seed uint64, shard, of int, outFile, journal string) {
	p := props[id]
	out := &workerOut{Hashes: map[string][]uint64{}}
	var mu sync.Mutex
	write := func() {
		b, _ := json.Marshal(out)
		os.WriteFile(outFile+".tmp", b, 0o644)
		os.Rename(outFile+".tmp", outFile)
	}
	go watch(func(in *inflight, why string) {
		mu.Lock()
		out.Failure = &failure{id, in.fam.Name, why, mustJSON(in.c)}
		write()
		os.Exit(0)
	})
	for fi := range p.Families {
		f := &p.Families[fi]
		n := f.Quick * quickScale(id)
		if tier == "thorough" {
			n = f.Thorough
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" { // development only
			x, _ := strconv.ParseFloat(s, 64)
			n = int(float64(n) * x)
		}
		n = (n + of - 1) / of
		st := &famStat{Family: f.Name, Labels: map[string]int{}, Known: map[string]int{}, Rule: f.Rule, hashes: map[uint64]struct{}{}}
		out.Stats = append(out.Stats, st)
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seedFor(seed, id, f.Name, tier, strconv.Itoa(shard)), 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "15s")
		var lastFail any
		var lastMsg string
		failing := false
		tb := &fakeTB{name: "verif_none"}
		prop := func(t *rapid.T) {
			c := f.gen(t)
			if journal != "" {
				os.WriteFile(journal, mustJSON(failure{id, f.Name, "the process died", mustJSON(c)}), 0o644)
			}
			in := &inflight{fam: f, c: c}
			current.Store(in)
			t0 := time.Now()
			o := runCase(f, c)
			if d := time.Since(t0); d > slowCase && os.Getenv("VERIF_SLOW") != "" { // development only
				b := mustJSON(c)
				fmt.Fprintf(os.Stderr, "SLOW %v %s %d bytes %.300s\n", d, f.Name, len(b), b)
			}
			current.Store(nil)
			if !failing {
				st.Evals++
				if o.skipped {
					st.Skipped++
				}
				for _, l := range o.labels {
					st.Labels[l]++
				}
				for _, k := range o.known {
					st.Known[k]++
				}
				if o.nontrivial {
					st.NonTrivial++
					b := mustJSON(c)
					h := hash64(b)
					if len(st.hashes) >= 1500000 { // enough; distinct is then a lower bound
					} else if _, dup := st.hashes[h]; !dup {
						st.hashes[h] = struct{}{}
						if len(st.Samples) < 3 && len(b) < 2000 && len(st.hashes)%97 == 1 {
							st.Samples = append(st.Samples, b)
						}
					}
				}
			}
			if o.failure != "" {
				failing = true
				lastFail, lastMsg = c, o.failure
				t.Fatalf("violation")
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, prop)
		}()
		for h := range st.hashes {
			out.Hashes[f.Name] = append(out.Hashes[f.Name], h)
		}
		if failing {
			out.Failure = &failure{id, f.Name, lastMsg, mustJSON(lastFail)}
			break
		}
		if tb.failed {
			out.Error = strings.Join(tb.logs, "\n")
			break
		}
	}
	mu.Lock()
	write()
	os.Exit(0)
}

// --------------------------------------------------------------------- parent

func family(p *Prop, name string) *Family {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return &p.Families[i]
		}
	}
	return nil
}

// replayIn runs one stored case in a process of its own (it may hang or die).
func replayOne(file string) (failed bool, msg string, known []string, err error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "replay", file)
	b, e := cmd.Output()
	if e == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if k, ok := strings.CutPrefix(l, "KNOWN "); ok {
				known = append(known, k)
			}
		}
		return false, "", known, nil
	}
	if ee, ok := e.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return true, string(b), nil, nil
	} else if ok && deathOf(string(ee.Stderr)) != "" {
		return true, deathOf(string(ee.Stderr)), nil, nil
	} else if ok {
		return false, "", nil, fmt.Errorf("%v: %s", e, ee.Stderr)
	}
	return false, "", nil, e
}

func doReplay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		die(2, "%v", err)
	}
	p := props[fl.Property]
	if p == nil {
		die(2, "unknown property %q", fl.Property)
	}
	f := family(p, fl.Family)
	if f == nil {
		die(2, "unknown family %q", fl.Family)
	}
	c, err := f.decode(fl.Case)
	if err != nil {
		die(2, "%v", err)
	}
	go watch(func(in *inflight, why string) {
		fmt.Println("REPRODUCED", why)
		os.Exit(1)
	})
	current.Store(&inflight{fam: f, c: c})
	o := runCase(f, c)
	for i := 0; i < 200 && p.Journal && o.failure == ""; i++ { // schedules differ
		o = runCase(f, c)
	}
	if o.failure != "" {
		fmt.Println("REPRODUCED", o.failure)
		os.Exit(1)
	}
	for _, k := range o.known {
		fmt.Println("KNOWN", k)
	}
	fmt.Println("passes")
	os.Exit(0)
}

func saveReplay(fl *failure) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(fl, "", " ")
	h := sha256.Sum256(b)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s.json", fl.Property, hex.EncodeToString(h[:6])))
	if err := os.WriteFile(name, b, 0o644); err != nil {
		die(2, "cannot write replay: %v", err)
	}
	return name
}

func check(id, tier string, seed uint64) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		die(2, "unknown property %q", id)
	}
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(tmp)
	var fails []*failure
	corpus := 0
	addFail := func(fl *failure) { fails = append(fails, fl) }

	// 1. regression corpus: the minimal cases of repaired defects and planted bugs
	files, _ := filepath.Glob(filepath.Join(verifDir, "corpus", id, "*.json"))
	sort.Strings(files)
	for _, file := range files {
		corpus++
		failed, msg, _, err := replayOne(file)
		if err != nil {
			fmt.Fprintf(os.Stderr, "corpus %s: %v\n", file, err)
			return 2
		}
		if failed {
			var fl failure
			b, _ := os.ReadFile(file)
			json.Unmarshal(b, &fl)
			fl.Message = msg
			addFail(&fl)
		}
	}

	// 2. witnesses of known findings
	knownSeen := []string{}
	for _, k := range loadKnown() {
		if k.Property != id || k.Status != "known" {
			continue
		}
		file := filepath.Join(tmp, "known-"+k.ID+".json")
		os.WriteFile(file, mustJSON(failure{id, k.Family, "", k.Witness}), 0o644)
		failed, msg, ids, err := replayOne(file)
		if err != nil {
			fmt.Fprintf(os.Stderr, "known finding %s: %v\n", k.ID, err)
			return 2
		}
		if failed {
			addFail(&failure{id, k.Family, msg, k.Witness})
			continue
		}
		for _, s := range ids {
			if s == k.ID {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.ID, k.What)
				knownSeen = append(knownSeen, k.ID)
				break
			}
		}
	}

	// 3. generated cases, in parallel shards
	shards := 8
	outs := make([]*workerOut, shards)
	errs := make([]error, shards)
	var wg sync.WaitGroup
	exe, _ := os.Executable()
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			of := filepath.Join(tmp, fmt.Sprintf("out%d.json", i))
			run := func(journal string) error {
				args := []string{"worker", id, tier, strconv.FormatUint(seed, 10), strconv.Itoa(i), strconv.Itoa(shards), of}
				if journal != "" {
					args = append(args, journal)
				}
				cmd := exec.Command(exe, args...)
				var eb strings.Builder
				cmd.Stderr = &eb
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66")
				if p.Journal {
					cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
				}
				if e := cmd.Run(); e != nil || os.Getenv("VERIF_SLOW") != "" {
					s := eb.String()
					if len(s) > 3000 {
						s = s[:3000]
					}
					if e == nil {
						fmt.Fprint(os.Stderr, s)
						return nil
					}
					return fmt.Errorf("%v: %s", e, s)
				}
				return nil
			}
			// the code under test can kill the process; the journal has the case
			j := filepath.Join(tmp, fmt.Sprintf("journal%d.json", i))
			first := ""
			if p.Journal {
				first = j
			}
			e := run(first)
			if e != nil && deathOf(e.Error()) != "" {
				e2 := e
				if first == "" {
					e2 = run(j)
				}
				b, re := os.ReadFile(j)
				if e2 != nil && re == nil {
					var fl failure
					if json.Unmarshal(b, &fl) == nil {
						fl.Message = deathOf(e.Error()) + ": " + e2.Error()
						outs[i] = &workerOut{Failure: &fl}
						return
					}
				}
			}
			if e != nil {
				errs[i] = e
				return
			}
			b, e := os.ReadFile(of)
			if e != nil {
				errs[i] = e
				return
			}
			w := &workerOut{}
			if e := json.Unmarshal(b, w); e != nil {
				errs[i] = e
				return
			}
			outs[i] = w
		}(i)
	}
	wg.Wait()
	for i := range errs {
		if errs[i] != nil {
			fmt.Fprintf(os.Stderr, "shard %d: %v\n", i, errs[i])
		}
	}
	stats := map[string]*famStat{}
	hashes := map[string]map[uint64]struct{}{}
	var order []string
	for _, w := range outs {
		if w == nil {
			continue
		}
		if w.Failure != nil {
			addFail(w.Failure)
		}
		if w.Error != "" {
			fmt.Fprintf(os.Stderr, "generator error: %s\n", w.Error)
			return 2
		}
		for _, st := range w.Stats {
			t := stats[st.Family]
			if t == nil {
				t = &famStat{Family: st.Family, Labels: map[string]int{}, Known: map[string]int{}, Rule: st.Rule}
				stats[st.Family] = t
				hashes[st.Family] = map[uint64]struct{}{}
				order = append(order, st.Family)
			}
			t.Evals += st.Evals
			t.NonTrivial += st.NonTrivial
			t.Skipped += st.Skipped
			for k, v := range st.Labels {
				t.Labels[k] += v
			}
			for k, v := range st.Known {
				t.Known[k] += v
			}
			if len(t.Samples) < 3 {
				t.Samples = append(t.Samples, st.Samples...)
				if len(t.Samples) > 3 {
					t.Samples = t.Samples[:3]
				}
			}
		}
		for f, hs := range w.Hashes {
			for _, h := range hs {
				hashes[f][h] = struct{}{}
			}
		}
	}
	ev, dn := corpus, 0
	var fams []*famStat
	var samples []any
	var rules []string
	for _, name := range order {
		st := stats[name]
		st.Distinct = len(hashes[name])
		ev += st.Evals
		dn += st.Distinct
		for _, s := range st.Samples {
			samples = append(samples, map[string]any{"family": name, "case": s})
		}
		rules = append(rules, name+": "+st.Rule)
		st.Samples = nil
		fams = append(fams, st)
	}
	evidence := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": ev, "distinct_nontrivial": dn,
			"rule":     strings.Join(rules, " | "),
			"samples":  samples,
			"families": fams, "corpus_cases": corpus, "shards": shards,
			"known_findings_seen": knownSeen,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fails),
	}
	b, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fails) > 0 {
		// the smallest one is the replay file
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		file := saveReplay(fails[0])
		fmt.Printf("%s family %s: %s\ncase: %s\n", id, fails[0].Family, fails[0].Message, fails[0].Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	for _, e := range errs {
		if e != nil {
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: held on %d cases, %d distinct non-trivial (%.1fs)\n", id, tier, seed, ev, dn, time.Since(start).Seconds())
	return 0
}

func main() {
	debug.SetMaxStack(512 << 20)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		die(2, "usage: vt check ID | replay FILE")
	}
	for _, k := range loadKnown() {
		if k.Status == "known" {
			knownIDs[k.ID] = true
		}
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseUint(s, 10, 64); err == nil {
				seed = v
			} else {
				seed = hash64([]byte(s))
			}
		}
		os.Exit(check(os.Args[2], tier, seed))
	case "worker":
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		shard, _ := strconv.Atoi(os.Args[5])
		of, _ := strconv.Atoi(os.Args[6])
		j := ""
		if len(os.Args) > 8 {
			j = os.Args[8]
		}
		loadDict()
		worker(os.Args[2], os.Args[3], seed, shard, of, os.Args[7], j)
	case "replay":
		doReplay(os.Args[2])
	default:
		die(2, "unknown command %q", os.Args[1])
	}
}

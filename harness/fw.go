package main

// The frame every check runs in: a parent process that starts workers, each of which drives one property
// with rapid over generated cases, and a replay mode that runs a single case again.
//
// A case is a JSON value. It is written to a journal before it runs, so that a case that kills or blocks
// its worker is known, can be confirmed in a process of its own, and can be made smaller.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property with its generator and its check.
type Prop struct {
	ID          string
	Level       string
	Rule        string   // how cases are made, and what makes one non-trivial
	Assumptions []string // what the verdict rests on
	Quick       int      // cases in the quick tier, over all workers
	Thorough    int      // cases in the thorough tier, over all workers
	Workers     int      // at most this many workers (0: one per core)
	CaseLimit   time.Duration
	Quiet       bool // the code under test writes a lot to stderr

	draw   func(*rapid.T) any
	decode func([]byte) (any, error)
	run    func(any, *Ctx) error
}

var props = map[string]*Prop{}

func register[T any](p Prop, draw func(*rapid.T) T, run func(T, *Ctx) error) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.CaseLimit == 0 {
		p.CaseLimit = 30 * time.Second
	}
	p.draw = func(t *rapid.T) any { return draw(t) }
	p.decode = func(b []byte) (any, error) {
		var v T
		err := json.Unmarshal(b, &v)
		return v, err
	}
	p.run = func(c any, ctx *Ctx) error { return run(c.(T), ctx) }
	props[p.ID] = &p
}

// Ctx is what a running case may use and report to.
type Ctx struct {
	nontrivial bool
	counts     map[string]int
	scratch    string // a directory of this worker's own
	counting   bool
	n          int
}

func (c *Ctx) NonTrivial() { c.nontrivial = true }

func (c *Ctx) Hit(label string) {
	if c.counting {
		c.counts[label]++
	}
}

// Dir makes a fresh directory for one case.
func (c *Ctx) Dir() string {
	c.n++
	d := filepath.Join(c.scratch, fmt.Sprintf("case%d", c.n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessError{err})
	}
	return d
}

// harnessError is a failure of the machinery, never of the code under test.
type harnessError struct{ err error }

func (h harnessError) Error() string { return "harness: " + h.err.Error() }

func violf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// runCase runs one case; a panic is a violation.
func runCase(p *Prop, c any, ctx *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.run(c, ctx)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "topolith") || strings.Contains(l, "harness") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, "\n")
}

// Result is what a worker reports.
type Result struct {
	Evaluations int
	Hashes      []uint64
	Samples     []json.RawMessage
	Counts      map[string]int
	Failed      bool
	Case        json.RawMessage
	Message     string
	HarnessErr  string
	Known       map[string]int
}

// knownFindings are the messages' prefixes of the listed findings of a property.
type knownFinding struct {
	Property  string
	Signature string
	What      string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the lines "known: property=<id> signature=<text> what=<text>".
func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" signature=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " what=")
		out = append(out, knownFinding{id, strings.TrimSpace(sig), strings.TrimSpace(what)})
	}
	return out
}

type fakeTB struct {
	failed bool
	log    strings.Builder
}

func (f *fakeTB) Helper()                 {}
func (f *fakeTB) Name() string            { return "check" }
func (f *fakeTB) Logf(s string, a ...any) { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)            { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(string, ...any)    { panic(harnessError{fmt.Errorf("skip")}) }
func (f *fakeTB) Skip(...any)             { panic(harnessError{fmt.Errorf("skip")}) }
func (f *fakeTB) SkipNow()                { panic(harnessError{fmt.Errorf("skip")}) }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.Logf(s, a...)
	f.failed = true
}
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); f.FailNow() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

const (
	exitHang   = 73
	exitMemory = 74
)

// watch ends the process when one case runs for too long or memory grows without bound.
// The parent then runs the journaled case again alone before it believes it.
func watch(limit time.Duration) (start func(), stop func()) {
	var began atomic.Int64
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			if b := began.Load(); b != 0 && time.Since(time.Unix(0, b)) > limit {
				fmt.Fprintf(os.Stderr, "harness: case still running after %v\n", limit)
				os.Exit(exitHang)
			}
			if rss() > 3<<30 {
				fmt.Fprintln(os.Stderr, "harness: more than 3 GB of memory in use")
				os.Exit(exitMemory)
			}
		}
	}()
	return func() { began.Store(time.Now().UnixNano()) }, func() { began.Store(0) }
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// workTime is how long a worker draws new cases. It is far more than the cases need; on a very slow machine
// the check then covers fewer of them, and says so, rather than giving no answer.
func workTime() time.Duration {
	if v, err := time.ParseDuration(os.Getenv("VERIF_TIME")); err == nil {
		return v
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 3 * time.Hour
	}
	return 5 * time.Minute
}

func worker(p *Prop, seed uint64, checks int, out string, shrink time.Duration) Result {
	end := time.Now().Add(workTime())
	debug.SetMaxStack(512 << 20)
	ctx := &Ctx{counts: map[string]int{}, scratch: filepath.Join(out, "scratch"), counting: true}
	res := Result{Counts: ctx.counts, Known: map[string]int{}}
	known := loadKnown(p.ID)
	journal, err := os.Create(filepath.Join(out, "journal"))
	if err != nil {
		panic(err)
	}
	start, stop := watch(p.CaseLimit)
	seen := map[uint64]bool{}
	var harnessErr error
	setFlags(seed, checks, shrink)
	tb := &fakeTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(rt *rapid.T) {
			if harnessErr != nil || (!res.Failed && res.Evaluations > 0 && time.Now().After(end)) {
				return
			}
			c := p.draw(rt)
			b, err := json.Marshal(c)
			if err != nil {
				harnessErr = err
				return
			}
			journal.Truncate(0)
			journal.WriteAt(b, 0)
			// Run what the replay file will hold, so that both are the same.
			c, err = p.decode(b)
			if err != nil {
				harnessErr = err
				return
			}
			ctx.nontrivial = false
			ctx.counting = !res.Failed
			start()
			func() {
				defer func() {
					if r := recover(); r != nil {
						harnessErr = fmt.Errorf("%v", r)
					}
				}()
				err = runCase(p, c, ctx)
			}()
			stop()
			if harnessErr != nil {
				return
			}
			if err != nil {
				for _, k := range known {
					if strings.Contains(err.Error(), k.Signature) {
						res.Known[k.Signature]++
						err = nil
						break
					}
				}
			}
			if !res.Failed {
				res.Evaluations++
				if ctx.nontrivial {
					h := fnv.New64a()
					h.Write(b)
					if s := h.Sum64(); !seen[s] {
						seen[s] = true
						if len(b) < 3000 && (len(res.Samples) < 3 || (len(res.Samples) < 6 && len(seen)%97 == 0)) {
							res.Samples = append(res.Samples, json.RawMessage(b))
						}
					}
				}
			}
			if err != nil {
				res.Failed = true
				res.Case = json.RawMessage(b)
				res.Message = err.Error()
				rt.Fatalf("violation")
			}
		})
	}()
	<-done
	if harnessErr != nil {
		res.HarnessErr = harnessErr.Error()
	} else if tb.failed && !res.Failed {
		res.HarnessErr = "rapid: " + tb.log.String()
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	return res
}

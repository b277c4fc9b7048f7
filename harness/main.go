package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// harness check <ID>             run the property's check (VERIF_SEED, VERIF_TIER)
// harness worker <ID> ...        one worker of a check
// harness replay <file> [times]  run the case of a replay file again
// harness list                   the properties

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	args := os.Args[1:]
	if len(args) == 0 {
		fatal("usage: harness check|replay|list ...")
	}
	switch args[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		os.Exit(check(mustProp(args[1])))
	case "worker":
		p := mustProp(args[1])
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		n, _ := strconv.Atoi(args[3])
		shrink, _ := time.ParseDuration(args[5])
		res := worker(p, seed, n, args[4], shrink)
		b, err := json.Marshal(res)
		if err != nil {
			fatal(err.Error())
		}
		if err := os.WriteFile(filepath.Join(args[4], "result.json"), b, 0o644); err != nil {
			fatal(err.Error())
		}
	case "dict":
		b, _ := json.MarshalIndent(readDict(env("TOPOLITH_REPO", "/repo")), "", " ")
		os.Stdout.Write(append(b, 10))
	case "replay":
		times := 300
		if len(args) > 2 {
			times, _ = strconv.Atoi(args[2])
		}
		os.Exit(replay(args[1], times))
	case "child":
		child(args[1:])
	default:
		fatal("unknown mode " + args[0])
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, s)
	os.Exit(2)
}

func mustProp(id string) *Prop {
	p, ok := props[id]
	if !ok {
		fatal("no property " + id)
	}
	return p
}

func setFlags(seed uint64, checks int, shrink time.Duration) {
	if seed == 0 {
		seed = 1
	}
	for k, v := range map[string]string{
		"rapid.seed":       strconv.FormatUint(seed, 10),
		"rapid.checks":     strconv.Itoa(checks),
		"rapid.shrinktime": shrink.String(),
		"rapid.nofailfile": "true",
	} {
		if err := flag.Set(k, v); err != nil {
			fatal(err.Error())
		}
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// replay runs a case again, several times because map iteration order differs between runs.
func replay(file string, times int) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err.Error())
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err.Error())
	}
	p := mustProp(r.Property)
	scratch, cleanup := makeScratch()
	defer cleanup()
	ctx := &Ctx{counts: map[string]int{}, scratch: scratch}
	start, stop := watch(p.CaseLimit * 2)
	deadline := time.Now().Add(30 * time.Second)
	for i := 0; i < times && (i == 0 || time.Now().Before(deadline)); i++ {
		c, err := p.decode(r.Case)
		if err != nil {
			fatal(err.Error())
		}
		start()
		err = runCase(p, c, ctx)
		stop()
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: run %d: %v\n", r.Property, i+1, err)
			return 1
		}
	}
	return 0
}

func makeScratch() (string, func()) {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "topolith-verif-")
	if err != nil {
		d, err = os.MkdirTemp("", "topolith-verif-")
		if err != nil {
			fatal(err.Error())
		}
	}
	return d, func() { os.RemoveAll(d) }
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func derive(seed int64, id string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return h.Sum64() >> 1
}

type outcome struct {
	res    *Result
	exit   string
	stderr string
	cse    []byte
}

func runWorker(p *Prop, seed uint64, n int, dir string, shrink time.Duration) outcome {
	os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "scratch"), 0o755); err != nil {
		fatal(err.Error())
	}
	cmd := exec.Command(os.Args[0], "worker", p.ID, strconv.FormatUint(seed, 10), strconv.Itoa(n), dir, shrink.String())
	var se *os.File
	if !p.Quiet {
		se, _ = os.Create(filepath.Join(dir, "stderr"))
		cmd.Stderr = se
	}
	err := cmd.Run()
	o := outcome{}
	if se != nil {
		se.Close()
		b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		if len(b) > 4000 {
			b = b[:4000]
		}
		o.stderr = string(b)
	}
	if err == nil {
		b, err := os.ReadFile(filepath.Join(dir, "result.json"))
		var r Result
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err == nil {
			o.res = &r
			return o
		}
		o.exit = err.Error()
		return o
	}
	o.exit = err.Error()
	o.cse, _ = os.ReadFile(filepath.Join(dir, "journal"))
	return o
}

// tryAlone runs one case in a process of its own and tells how it went: "" if it passed.
func tryAlone(p *Prop, cse []byte, dir string, times int, limit time.Duration) string {
	f := filepath.Join(dir, "alone.json")
	b, _ := json.Marshal(Replay{p.ID, "", cse})
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(os.Args[0], "replay", f, strconv.Itoa(times))
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return ""
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		return fmt.Sprintf("does not end within %v", limit)
	}
	if err == nil {
		return ""
	}
	if cmd.ProcessState.ExitCode() == 2 && !strings.Contains(se.String(), "goroutine") {
		return "" // the machinery, not the case
	}
	s := se.String()
	if len(s) > 1500 {
		s = s[:1500]
	}
	return err.Error() + ": " + s
}

func check(p *Prop) int {
	began := time.Now()
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	tier := env("VERIF_TIER", "quick")
	total, shrink := p.Quick, 15*time.Second
	if tier == "thorough" {
		total, shrink = p.Thorough, 60*time.Second
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		total, _ = strconv.Atoi(v)
	}
	if v, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
		shrink = v
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		n = v
	}
	if p.Workers > 0 && n > p.Workers {
		n = p.Workers
	}
	scratch, cleanup := makeScratch()
	defer cleanup()

	outs := make([]outcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
			outs[i] = runWorker(p, derive(seed, p.ID, i), (total+n-1)/n, dir, shrink)
		}(i)
	}
	wg.Wait()

	var violation *Replay
	keep := func(cse []byte, msg string) {
		if violation == nil || len(cse) < len(violation.Case) {
			violation = &Replay{p.ID, msg, cse}
		}
	}
	broken := ""
	for i := range outs {
		o := &outs[i]
		if o.res != nil {
			if o.res.HarnessErr != "" {
				broken = o.res.HarnessErr
			} else if o.res.Failed {
				keep(o.res.Case, o.res.Message)
			}
			continue
		}
		// The worker died or was stopped: is it the case it was on?
		if len(o.cse) > 0 {
			limit := 2*p.CaseLimit + 10*time.Second
			if how := tryAlone(p, o.cse, scratch, 20, limit); how != "" {
				if violation == nil {
					small := shrinkJSON(p, o.cse, scratch, 45*time.Second)
					keep(small, how)
				}
				continue
			}
		}
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
		again := runWorker(p, derive(seed, p.ID, i), (total+n-1)/n, dir, shrink)
		if again.res != nil && again.res.HarnessErr == "" {
			*o = again
			if again.res.Failed {
				keep(again.res.Case, again.res.Message)
			}
			continue
		}
		broken = fmt.Sprintf("worker %d ended with %s and its case does not explain it: %s", i, o.exit, o.stderr)
	}

	// Evidence.
	hashes := map[uint64]bool{}
	counts := map[string]int{}
	knownHits := map[string]int{}
	evals := 0
	samples := []json.RawMessage{}
	for _, o := range outs {
		if o.res == nil {
			continue
		}
		evals += o.res.Evaluations
		for _, h := range o.res.Hashes {
			hashes[h] = true
		}
		for k, v := range o.res.Counts {
			counts[k] += v
		}
		for k, v := range o.res.Known {
			knownHits[k] += v
		}
		if len(samples) < 5 {
			for _, s := range o.res.Samples {
				if len(samples) < 5 {
					samples = append(samples, s)
				}
			}
		}
	}
	viol := 0
	if violation != nil {
		viol = 1
		if len(samples) == 0 {
			samples = append(samples, violation.Case)
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             counts,
			"workers":             n,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"violations":  viol,
		"wall_s":      time.Since(began).Seconds(),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err.Error())
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err.Error())
	}
	for _, k := range loadKnown(p.ID) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
	}
	if violation != nil {
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		h := fnv.New32a()
		h.Write(violation.Case)
		path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
		b, _ := json.MarshalIndent(violation, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fatal(err.Error())
		}
		fmt.Println(violation.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct and non-trivial), %.1f s\n", p.ID, evals, len(hashes), time.Since(began).Seconds())
	return 0
}

// shrinkJSON makes a case that kills or blocks its process smaller, by dropping elements of its lists and
// halves of its strings for as long as the process still ends badly.
func shrinkJSON(p *Prop, cse []byte, dir string, budget time.Duration) []byte {
	deadline := time.Now().Add(budget)
	bad := func(c []byte) bool {
		if time.Now().After(deadline) {
			return false
		}
		if _, err := p.decode(c); err != nil {
			return false
		}
		return tryAlone(p, c, dir, 1, 10*time.Second) != ""
	}
	best := cse
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		var v any
		dec := json.NewDecoder(bytes.NewReader(best))
		dec.UseNumber()
		if dec.Decode(&v) != nil {
			return best
		}
		for _, alt := range smaller(v) {
			b, err := json.Marshal(alt)
			if err != nil || len(b) >= len(best) {
				continue
			}
			if bad(b) {
				best, progress = b, true
				break
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	return best
}

// smaller lists values that are like v with something left out, biggest cuts first.
func smaller(v any) []any {
	var out []any
	switch x := v.(type) {
	case []any:
		for size := len(x); size >= 1; size /= 2 {
			for i := 0; i+size <= len(x); i += size {
				y := append(append([]any{}, x[:i]...), x[i+size:]...)
				out = append(out, y)
			}
		}
		for i := range x {
			for _, s := range smaller(x[i]) {
				y := append([]any{}, x...)
				y[i] = s
				out = append(out, y)
			}
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, s := range smaller(x[k]) {
				y := map[string]any{}
				for kk, vv := range x {
					y[kk] = vv
				}
				y[k] = s
				out = append(out, y)
			}
		}
	case string:
		if len(x) > 1 {
			out = append(out, x[:len(x)/2], x[len(x)/2:])
		}
	}
	return out
}

package main

// Properties of saved worlds: C02, C03.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

// --- C02 ---

// FileOp is one step of a history of saving and loading.
type FileOp struct {
	K    string `json:"k"`              // save, load, list, edit, load into a slot
	D    int    `json:"d"`              // directory
	I    int    `json:"i"`              // persistence instance of that directory
	W    int    `json:"w"`              // slot of a world in memory
	Name string `json:"name,omitempty"` // name to load, or to give the world first
	Ops  []Op   `json:"ops,omitempty"`
	N    int    `json:"n,omitempty"` // how many worlds to save one after the other
	At   []At   `json:"at,omitempty"`
}

// At is one of the calls that are made at the same time.
type At struct {
	K    string `json:"k"` // save, load, list
	I    int    `json:"i"`
	Name string `json:"name"`
	Ops  []Op   `json:"ops,omitempty"`
}

type filesCase struct {
	Deep bool     `json:"deep"`          // the directories do not exist at first
	Home bool     `json:"home"`          // the first directory is the one that is used when none is chosen
	Cwd  int      `json:"cwd,omitempty"` // 1: relative directories; 2: working in the first directory
	Ops  []FileOp `json:"ops"`
}

var trickyNames = []string{
	"", "w", "default-world", "a.world", ".world", "w.world", "w.world.world", "..", ".", "...", ".w", "w.", "w.tmp", ".tmp", "w.bak",
	"W", " ", " w", "w ", "a b", "-", "--help", "*", "(x", "[a]", "~", "$$", "%s", "%2F", "CON", "nil", "endworld$$", "w1", "w2", "world",
	"w.world.tmp", ".save-1.tmp", "#w", "w~", "a:b", "&", "item a", "w, x", "w\x20\x20x", "x.json", "w.World", "w.WORLD", "worlds",
}

var pathNames = []string{
	"../x", "../../x", "../../../x", "a/b", "/x", "./w", "w/", "../d1/w", "..\\x", "a\\b", "\\x", "a/../../x", "sub/w", "../outside", "//x",
}

func genName(t *rapid.T) string {
	switch weighted(t, "namekind", 45, 30, 10, 8, 7) {
	case 0:
		return pick(t, "name", []string{"w", "x", "a", "a.world", "b"})
	case 1:
		return pick(t, "tricky", trickyNames)
	case 2:
		return charText(strings.ReplaceAll(quotedChars, "/", ""), 0, 12).Draw(t, "chars")
	case 3:
		return strings.Repeat("n", rapid.IntRange(190, 260).Draw(t, "len")) + pick(t, "end", []string{"", "a", "b", ".world"})
	default:
		return pick(t, "path", pathNames)
	}
}

func genFilesCase(t *rapid.T) filesCase {
	c := filesCase{Deep: chance(t, "deep", 30), Home: chance(t, "home", 12)}
	c.Cwd = weighted(t, "cwd", 76, 12, 12)
	const slots = 3
	g := make([]*opGen, slots)
	names := []string{}
	for i := range g {
		g[i] = &opGen{ids: genIds(t, 2, 6), m: newModel("w"), mix: evenMix}
	}
	n := size(t, "n", 2, 14, 40)
	name := func() string {
		if len(names) > 0 && chance(t, "again", 60) {
			return pick(t, "known", names)
		}
		s := genName(t)
		names = append(names, s)
		return s
	}
	many := -1
	if chance(t, "many", 2) {
		many = uniform(t, "when", n)
	}
	for i := 0; i < n; i++ {
		o := FileOp{D: weighted(t, "d", 70, 30), I: weighted(t, "i", 40, 40, 20), W: uniform(t, "w", slots)}
		if i == many {
			o.K, o.Name, o.N = "many", pick(t, "prefix", []string{"w", "world ", "x."}), size(t, "many", 5, 80, 300)
			c.Ops = append(c.Ops, o)
			names = append(names, o.Name+strconv.Itoa(uniform(t, "one", o.N)))
			continue
		}
		switch weighted(t, "k", 44, 23, 12, 13, 6, 2) {
		case 5:
			o.K = "together"
			shared := []string{name(), name()}
			k := rapid.IntRange(2, 6).Draw(t, "calls")
			for j := 0; j < k; j++ {
				a := At{K: pick(t, "call", []string{"save", "save", "save", "load", "list"}), I: uniform(t, "i", 2), Name: pick(t, "of", shared)}
				if a.K == "save" {
					h := &opGen{ids: genIds(t, 2, 4), m: newModel("w"), mix: evenMix}
					for l := rapid.IntRange(0, 8).Draw(t, "ops"); l > 0; l-- {
						a.Ops = append(a.Ops, h.draw(t))
					}
				}
				o.At = append(o.At, a)
			}
		case 4:
			o.K, o.Name = "path", name()
		case 0:
			o.K, o.Name = "save", name()
			k := rapid.IntRange(0, 6).Draw(t, "ops")
			for j := 0; j < k; j++ {
				o.Ops = append(o.Ops, g[o.W].draw(t))
			}
		case 1:
			o.K, o.Name = "load", name()
		case 2:
			o.K = "list"
		default:
			o.K, o.Name = "reload", name()
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// filesUnder reads every file under a directory, apart from those below one of the directories to skip.
func filesUnder(root string, skip ...string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.WalkDir(root, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		for _, s := range skip {
			if path == s {
				if d.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		if d.IsDir() {
			out[path] = "directory"
			return nil
		}
		b, err := os.ReadFile(path)
		out[path] = "file " + string(b)
		return err
	})
	return out, err
}

func sameFiles(a, b map[string]string) error {
	for k, v := range b {
		if w, ok := a[k]; !ok {
			return fmt.Errorf("%s appeared", k)
		} else if w != v {
			return fmt.Errorf("%s changed", k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return fmt.Errorf("%s is gone", k)
		}
	}
	return nil
}

// newFile is the file of a world that a save has made, if it has made one.
func newFile(before, after map[string]string) string {
	path := ""
	for k, v := range after {
		if _, ok := before[k]; !ok && v != "directory" {
			if path != "" {
				return ""
			}
			path = k
		}
	}
	if filepath.Ext(path) != ".world" {
		return ""
	}
	return path
}

func runC02(c filesCase, ctx *Ctx) error {
	top := ctx.Dir()
	defer os.RemoveAll(top)
	// The directories for worlds lie deep enough for the names with ".." to stay inside of top.
	base := filepath.Join(top, "x1", "x2", "x3", "x4")
	if err := os.MkdirAll(base, 0o755); err != nil {
		panic(harnessError{err})
	}
	if err := os.WriteFile(filepath.Join(base, "outside.world"), []byte("not a world"), 0o644); err != nil {
		panic(harnessError{err})
	}
	dirs := []string{filepath.Join(base, "d0"), filepath.Join(base, "d1")}
	if c.Deep {
		dirs = []string{filepath.Join(base, "d0", "new", "deeper"), filepath.Join(base, "d1", "new")}
	} else {
		for _, d := range dirs {
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(harnessError{err})
			}
			for _, f := range []string{"notes.txt", "w.json", "b.world.bak", "world"} {
				if err := os.WriteFile(filepath.Join(d, f), []byte("x"), 0o644); err != nil {
					panic(harnessError{err})
				}
			}
		}
	}
	var ps [2][3]persistence.Persistence
	if c.Home {
		dirs[0] = filepath.Join(base, "d0")
		defer os.Setenv("HOME", os.Getenv("HOME"))
		os.Setenv("HOME", dirs[0])
	}
	// The directories as the code is told them, which may be relative to the working directory.
	told := append([]string{}, dirs...)
	cwd := ""
	if c.Cwd == 1 || c.Cwd == 2 && c.Deep {
		cwd = base
	} else if c.Cwd == 2 {
		cwd = filepath.Join(base, "d0")
	}
	if cwd != "" {
		was, err := os.Getwd()
		if err == nil {
			err = os.Chdir(cwd)
		}
		if err != nil {
			panic(harnessError{err})
		}
		defer os.Chdir(was)
		if c.Cwd == 1 {
			for d := range told {
				if told[d], err = filepath.Rel(cwd, dirs[d]); err != nil {
					panic(harnessError{err})
				}
			}
		}
		ctx.Hit("relative to a working directory")
	}
	for d := range ps {
		for i := range ps[d] {
			ps[d][i] = persistence.NewFilePersistence()
			if d > 0 || !c.Home {
				ps[d][i].SetSourcePath(told[d])
			}
		}
	}
	if !c.Home {
		ps[1][2] = ps[0][2] // this one goes from one directory to the other
	}
	kept := func(d int) map[string]string {
		if _, err := os.Stat(dirs[d]); err != nil {
			return nil
		}
		m, err := filesUnder(dirs[d])
		if err != nil {
			panic(harnessError{err})
		}
		return m
	}
	// d0 and d1 are looked at through the interface; everything else under top must never change. The times of the
	// directories tell of files that were there only for a while, also in the one for temporary files.
	temp := filepath.Join(top, "tmp")
	if err := os.MkdirAll(temp, 0o755); err != nil {
		panic(harnessError{err})
	}
	if was, ok := os.LookupEnv("TMPDIR"); ok {
		defer os.Setenv("TMPDIR", was)
	} else {
		defer os.Unsetenv("TMPDIR")
	}
	os.Setenv("TMPDIR", temp)
	still := []string{top, temp, filepath.Join(top, "x1"), filepath.Join(top, "x1", "x2"), filepath.Join(top, "x1", "x2", "x3")}
	if !c.Deep && !c.Home {
		still = append(still, base)
	}
	for _, d := range still {
		long := time.Unix(1_000_000_000, 0)
		if err := os.Chtimes(d, long, long); err != nil {
			panic(harnessError{err})
		}
	}
	outside := func() map[string]string {
		m, err := filesUnder(top, filepath.Join(base, "d0"), filepath.Join(base, "d1"))
		if err != nil {
			panic(harnessError{err})
		}
		for _, d := range still {
			info, err := os.Stat(d)
			if err != nil {
				panic(harnessError{err})
			}
			m[d] = "directory " + info.ModTime().UTC().String()
		}
		return m
	}
	before := outside()
	var saved, odd [2]map[string]*Model
	var paths [2]map[string]string
	for d := range saved {
		paths[d] = map[string]string{}
		saved[d], odd[d] = map[string]*Model{}, map[string]*Model{}
	}
	var worlds [3]world.World
	var models [3]*Model
	for i := range worlds {
		worlds[i], models[i] = world.CreateWorld("w"), newModel("w")
	}
	load := func(o FileOp, name string) (world.World, error) {
		w, err := ps[o.D][o.I].Load(name)
		m, ok := saved[o.D][name]
		switch {
		case odd[o.D][name] != nil || strings.ContainsAny(name, `/\`) && filepath.Ext(name) == ".world":
			return nil, nil // a name that may not be kept, but was, or a path
		case !ok && cwd != "" && filepath.Ext(name) == ".world":
			return nil, nil // it may be the path of a file
		case !ok && err == nil:
			return nil, violf("loading %q, which was never saved there, gives a world without an error", name)
		case !ok:
			return nil, nil
		case err != nil:
			return nil, violf("loading %q, which was saved, fails: %v", name, err)
		}
		if err := sameAs(m, w); err != nil {
			return nil, violf("world %q comes back changed: %v", name, err)
		}
		return w, nil
	}
	list := func(o FileOp) error {
		if len(saved[o.D]) == 0 {
			if _, err := os.Stat(dirs[o.D]); err != nil || c.Home && o.D == 0 {
				return nil
			}
		}
		names, err := ps[o.D][o.I].ListWorlds()
		if err != nil {
			return violf("listing fails: %v", err)
		}
		var got []string
		for _, n := range names {
			if odd[o.D][n] == nil {
				got = append(got, n)
			}
		}
		sort.Strings(got)
		if want := sortedKeys(saved[o.D]); !equalStrings(want, got) {
			return violf("listing names %q, saved were %q", got, want)
		}
		return nil
	}
	resaved, several := false, false
	for n, o := range c.Ops {
		step := func(err error) error {
			return violf("step %d (%s %q in directory %d): %w", n+1, o.K, clip(o.Name), o.D, err)
		}
		if o.I == 2 && !c.Home {
			ps[o.D][2].SetSourcePath(told[o.D])
		}
		switch o.K {
		case "together":
			now, err := together(o.At, ps[o.D], saved[o.D], cwd != "")
			if err != nil {
				return step(err)
			}
			for name, m := range now {
				if !strings.ContainsAny(name, `/\`) {
					saved[o.D][name] = m
				}
			}
			if err := list(o); err != nil {
				return step(err)
			}
			ctx.Hit("at the same time")
		case "save":
			w, m := worlds[o.W], models[o.W]
			for _, op := range o.Ops {
				do(w, op)
				m.apply(op)
			}
			w.SetName(o.Name)
			m.Name = o.Name
			if m.Version < 0 {
				continue
			}
			had, elsewhere := kept(o.D), kept(1-o.D)
			err := ps[o.D][o.I].Save(w)
			if e := sameAs(m, w); e != nil {
				return step(fmt.Errorf("saving changed the world in memory: %w", e))
			}
			if e := sameFiles(before, outside()); e != nil {
				return step(fmt.Errorf("outside of the directory %s", e))
			}
			if e := sameFiles(elsewhere, kept(1-o.D)); e != nil {
				return step(fmt.Errorf("outside of the directory %s", e))
			}
			name := w.Name()
			switch {
			case strings.ContainsAny(name, `/\`):
				if err == nil {
					odd[o.D][name] = m.clone()
				}
				ctx.Hit("name with path separator")
			case len(name) > 200 && err != nil:
				ctx.Hit("name too long for a file")
			case err != nil:
				return step(fmt.Errorf("saving fails: %w", err))
			default:
				if saved[o.D][name] != nil {
					resaved = true
					ctx.Hit("saved again")
				}
				saved[o.D][name] = m.clone()
				if path := newFile(had, kept(o.D)); path != "" {
					paths[o.D][name] = path
				}
				if len(saved[o.D]) > 1 {
					several = true
				}
			}
		case "load":
			if _, err := load(o, o.Name); err != nil {
				return step(err)
			}
		case "path":
			path := paths[o.D][o.Name]
			if path == "" {
				break
			}
			ctx.Hit("loaded by path")
			if rel, err := filepath.Rel(cwd, path); cwd != "" && err == nil && saved[0][rel] == nil && saved[1][rel] == nil {
				path = rel
				ctx.Hit("loaded by relative path")
			}
			w, err := ps[1-o.D][o.I].Load(path)
			if err != nil {
				return step(fmt.Errorf("the file of the saved world cannot be loaded by its path: %w", err))
			}
			if err := sameAs(saved[o.D][o.Name], w); err != nil {
				return step(fmt.Errorf("the file of the saved world, loaded by its path: %w", err))
			}
		case "reload":
			w, err := load(o, o.Name)
			if err != nil {
				return step(err)
			}
			if w != nil {
				worlds[o.W], models[o.W] = w, saved[o.D][o.Name].clone()
				ctx.Hit("went on with a loaded world")
			}
		case "many":
			for i := 0; i < o.N; i++ {
				name := o.Name + strconv.Itoa(i)
				w, m := world.CreateWorld(name), newModel(name)
				if err := ps[o.D][o.I].Save(w); err != nil {
					return step(fmt.Errorf("saving %q fails: %w", name, err))
				}
				saved[o.D][name] = m
			}
			if err := list(o); err != nil {
				return step(err)
			}
			ctx.Hit("many worlds")
		case "list":
			if err := list(o); err != nil {
				return step(err)
			}
		}
	}
	for d := range dirs {
		o := FileOp{D: d}
		if err := list(o); err != nil {
			return violf("at the end, directory %d: %w", d, err)
		}
		for _, name := range sortedKeys(saved[d]) {
			if _, err := load(o, name); err != nil {
				return violf("at the end, directory %d: %w", d, err)
			}
		}
	}
	if e := sameFiles(before, outside()); e != nil {
		return violf("outside of the directory %s", e)
	}
	if resaved || several {
		ctx.NonTrivial()
	}
	return nil
}

// together makes calls at the same time, and tells what is saved under the names they were about.
// A load may give any of the worlds that were there before or were being saved, each only as a whole.
func together(calls []At, ps [3]persistence.Persistence, saved map[string]*Model, paths bool) (map[string]*Model, error) {
	could := map[string][]*Model{}
	for _, a := range calls {
		if len(a.Name) > 200 || strings.ContainsAny(a.Name, `/\`) {
			return nil, nil
		}
		if m := saved[a.Name]; m != nil && could[a.Name] == nil {
			could[a.Name] = []*Model{m}
		}
	}
	written := map[string][]*Model{}
	worlds, errs := make([]world.World, len(calls)), make([]error, len(calls))
	lists := make([][]string, len(calls))
	for i, a := range calls {
		if a.K == "save" {
			worlds[i] = build("w", a.Ops)
			worlds[i].SetName(a.Name)
			m := modelOf("w", a.Ops)
			m.Name = a.Name
			if m.Version < 0 {
				return nil, nil
			}
			written[a.Name] = append(written[a.Name], m)
		}
	}
	fits := func(w world.World, ms []*Model) *Model {
		for _, m := range ms {
			if sameAs(m, w) == nil {
				return m
			}
		}
		return nil
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, a := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-gate
			switch a.K {
			case "save":
				errs[i] = ps[a.I].Save(worlds[i])
			case "load":
				worlds[i], errs[i] = ps[a.I].Load(a.Name)
			case "list":
				lists[i], errs[i] = ps[a.I].ListWorlds()
			}
		}()
	}
	close(gate)
	wg.Wait()
	now := map[string]*Model{}
	for i, a := range calls {
		old := could[a.Name]
		any := append(append([]*Model{}, old...), written[a.Name]...)
		switch {
		case a.K == "load" && paths && filepath.Ext(a.Name) == ".world" && len(old) == 0:
			// Where there is no world of that name yet, it may be the path of a file.
		case a.K == "save" && errs[i] != nil:
			return nil, violf("saving %q while other calls run fails: %w", a.Name, errs[i])
		case a.K == "load" && errs[i] == nil && fits(worlds[i], any) == nil:
			return nil, violf("loading %q while it is saved gives a world that was never saved: %q", a.Name, worlds[i].String())
		case a.K == "load" && errs[i] != nil && (len(old) > 0 || strings.Contains(errs[i].Error(), "panic")):
			return nil, violf("loading %q while other calls run fails: %w", a.Name, errs[i])
		case a.K == "list" && errs[i] == nil:
			for _, n := range lists[i] {
				if saved[n] == nil && written[n] == nil && !strings.ContainsAny(n, `/\`) {
					return nil, violf("listing while other calls run names %q, which was never saved", n)
				}
			}
		}
	}
	for name, ms := range written {
		w, err := ps[0].Load(name)
		if err != nil {
			return nil, violf("loading %q after saves at the same time fails: %w", name, err)
		}
		m := fits(w, ms)
		if m == nil {
			return nil, violf("after saves of %q at the same time, it is none of the worlds saved: %q", name, w.String())
		}
		now[name] = m.clone()
	}
	return now, nil
}

// --- C03 ---

// A fault of the storage during one save. Kind "size": files take only N bytes. Any other kind names a
// system call that fails with errno N. "crash-..." ends the process at that call instead.
type Fault struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
}

type faultCase struct {
	Names []string `json:"names"` // the worlds there before; the first is the one saved again
	First bool     `json:"first"` // the first was never saved before
	Old   []Op     `json:"old"`   // its content
	New   []Op     `json:"new"`   // what is added to it before it is saved again
	Other []Op     `json:"other"` // content of the others
	Cuts  []int    `json:"cuts"`  // where to cut the file, in ten-thousandths of its length
	All   bool     `json:"all"`   // cut it everywhere
	Crash []Fault  `json:"crash"`
	Errno int      `json:"errno"` // which errno failing calls begin with
	Pairs bool     `json:"pairs"` // also two calls failing
}

func genFaultCase(t *rapid.T) faultCase {
	var c faultCase
	n := rapid.IntRange(1, 3).Draw(t, "names")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		name := pick(t, "name", []string{"w", "a.world", "x", "a b", "w.tmp", "", ".world", "w.world", "v"})
		if !seen[name] {
			seen[name] = true
			c.Names = append(c.Names, name)
		}
	}
	c.First = chance(t, "first", 15)
	draw := func(lo, hi int, ids []string, m *Model) []Op {
		g := &opGen{ids: ids, m: m, mix: evenMix}
		var out []Op
		k := rapid.IntRange(lo, hi).Draw(t, "n")
		for i := 0; i < k; i++ {
			out = append(out, g.draw(t))
		}
		return out
	}
	ids := genIds(t, 2, 8)
	m := newModel("w")
	hi := 15
	if chance(t, "long", 15) {
		hi = 60
	}
	c.Old = draw(0, hi, ids, m)
	c.New = draw(1, hi, ids, m)
	c.Other = draw(0, 8, genIds(t, 1, 4), newModel("w"))
	c.All = chance(t, "all", 10)
	if !c.All {
		k := rapid.IntRange(2, 12).Draw(t, "cuts")
		for i := 0; i < k; i++ {
			c.Cuts = append(c.Cuts, rapid.IntRange(0, 10000).Draw(t, "cut"))
		}
	}
	c.Errno = uniform(t, "errno", len(errnos))
	c.Pairs = chance(t, "pairs", 15)
	if chance(t, "crash", 12) {
		for i := 0; i < 2; i++ {
			f := Fault{K: "crash-" + pick(t, "call", crashCalls)}
			if f.K == "crash-step" {
				f.N = rapid.IntRange(1, 10).Draw(t, "step")
			}
			if f.K == "crash-size" {
				f.N = rapid.IntRange(0, 10000).Draw(t, "cut")
			}
			c.Crash = append(c.Crash, f)
		}
	}
	return c
}

var crashCalls = []string{"size", "step", "step", "step", "fsync", "rename", "write", "fchmod", "close", "unlink"}

func runC03(c faultCase, ctx *Ctx) error {
	if len(c.Names) == 0 {
		return nil
	}
	top := ctx.Dir()
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "worlds")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(harnessError{err})
	}
	p := persistence.NewFilePersistence()
	p.SetSourcePath(dir)
	saved := map[string]*Model{}
	for _, name := range c.Names[1:] {
		w := build(name, c.Other)
		w.SetName(name)
		if err := p.Save(w); err != nil {
			return violf("saving %q fails: %v", name, err)
		}
		saved[name] = modelOf(name, c.Other)
		saved[name].Name = name
	}
	name := c.Names[0]
	oldW, oldM := build(name, c.Old), modelOf(name, c.Old)
	oldW.SetName(name)
	oldM.Name = name
	saveOld := func() error {
		if c.First {
			// Not part of the history: it starts afresh without that world.
			if err := os.RemoveAll(dir); err != nil {
				panic(harnessError{err})
			}
			for _, other := range c.Names[1:] {
				w := build(other, c.Other)
				w.SetName(other)
				if err := p.Save(w); err != nil {
					return violf("saving %q fails: %v", other, err)
				}
			}
			if err := os.MkdirAll(dir, 0o755); err != nil {
				panic(harnessError{err})
			}
			delete(saved, name)
			return nil
		}
		if err := p.Save(oldW); err != nil {
			return violf("saving %q without a fault fails: %v", name, err)
		}
		saved[name] = oldM
		return nil
	}
	if err := saveOld(); err != nil {
		return err
	}
	newW, newM := build(name, append(append([]Op{}, c.Old...), c.New...)), modelOf(name, append(append([]Op{}, c.Old...), c.New...))
	newW.SetName(name)
	newM.Name = name
	if diff(oldM, newM) == "" {
		newW.SetExpanded(newM.Expanded + "more")
		newM.Expanded += "more"
	}
	if oldM.Version < 0 || newM.Version < 0 {
		return nil
	}

	// verify checks what loading and listing say; state holds the possible contents of the saved world.
	verify := func(what string, possible ...*Model) (int, error) {
		names, err := p.ListWorlds()
		if err != nil {
			return 0, violf("%s: listing fails: %v", what, err)
		}
		sort.Strings(names)
		which := -1
		w, err := p.Load(name)
		var why error
		for i, m := range possible {
			if m == nil {
				if err != nil {
					which = i
				} else {
					why = fmt.Errorf("there is a world")
				}
				continue
			}
			if err != nil {
				why = err
				continue
			}
			if e := sameAs(m, w); e == nil {
				which = i
				break
			} else {
				why = e
			}
		}
		if which < 0 {
			return 0, violf("%s: world %q is not what it should be: %v", what, name, why)
		}
		want := []string{}
		for n := range saved {
			if n != name {
				want = append(want, n)
			}
		}
		if possible[which] != nil {
			want = append(want, name)
		}
		sort.Strings(want)
		if !equalStrings(want, names) {
			return 0, violf("%s: listing names %q, saved are %q", what, names, want)
		}
		for n, m := range saved {
			if n == name {
				continue
			}
			w, err := p.Load(n)
			if err != nil {
				return 0, violf("%s: the other world %q cannot be loaded any more: %v", what, n, err)
			}
			if err := sameAs(m, w); err != nil {
				return 0, violf("%s: the other world %q changed: %v", what, n, err)
			}
		}
		return which, nil
	}

	size := len(newW.String())
	var faults []Fault
	at := map[int]bool{}
	cut := func(k int) {
		if k >= 0 && !at[k] {
			at[k] = true
			faults = append(faults, Fault{"size", k})
		}
	}
	for _, k := range []int{0, 1, size / 2, size - 1, size, size + 1} {
		cut(k)
	}
	if c.All && size <= 1500 {
		for k := 0; k <= size; k++ {
			cut(k)
		}
		ctx.Hit("cut at every byte")
	}
	for _, k := range c.Cuts {
		cut(k * size / 10000)
	}
	for i, k := 0, 0; i < 6; i++ { // after some of the lines
		j := strings.IndexByte(newW.String()[k:], '\n')
		if j < 0 {
			break
		}
		k += j + 1
		cut(k)
	}
	if seccompWorks() {
		for _, call := range []string{"write", "fsync", "fchmod", "close", "rename", "open", "unlink"} {
			if call == "close" && stepWorks() {
				continue // done one by one below
			}
			faults = append(faults, Fault{call, errnos[(c.Errno+len(faults))%len(errnos)]})
		}
	} else {
		ctx.Hit("no seccomp here")
	}
	failed, worked := 0, 0
	for _, f := range faults {
		var err error
		if f.K == "size" {
			err = saveLimited(p, newW, f.N)
		} else {
			err = saveFaulty(p, newW, f)
		}
		if h, ok := err.(harnessError); ok {
			panic(h)
		}
		if err != nil {
			failed++
			ctx.Hit("failed: " + f.K)
			if _, err := verify(fmt.Sprintf("after a save that failed (%s %d of %d: %v)", f.K, f.N, size, err), saved[name]); err != nil {
				return err
			}
			continue
		}
		worked++
		ctx.Hit("did not fail: " + f.K)
		if _, err := verify(fmt.Sprintf("after a save that reported no error (%s %d of %d)", f.K, f.N, size), newM); err != nil {
			return err
		}
		if err := saveOld(); err != nil {
			return err
		}
		if _, err := verify("after saving the old content again", saved[name]); err != nil {
			return err
		}
	}
	if stepWorks() {
		// Every call that changes the storage: it fails alone, or it and all after it, as if the process had
		// been stopped there.
		stepped := func(what string, errno int, alone bool, fails func(n int) bool) (int, error) {
			n, err := saveStepped(p, newW, dir, errno, fails)
			if h, ok := err.(harnessError); ok {
				panic(h)
			}
			possible := []*Model{saved[name]}
			if !alone {
				possible = append(possible, newM)
			}
			if err == nil {
				what, possible = what+" and the save reported no error", []*Model{newM}
			}
			which, err := verify(fmt.Sprintf("after %s (errno %d)", what, errno), possible...)
			if err != nil {
				return n, err
			}
			if possible[which] == newM {
				return n, saveOld()
			}
			return n, nil
		}
		for k, reached := 1, true; reached && k <= 40; k++ {
			errno := errnos[(c.Errno+k)%len(errnos)]
			n, err := stepped(fmt.Sprintf("call %d failed", k), errno, true, func(n int) bool { return n == k })
			if err != nil {
				return err
			}
			if reached = n >= k; reached {
				ctx.Hit("stepped: " + strconv.Itoa(k))
			}
			if _, err := stepped(fmt.Sprintf("every call from number %d on failed", k), errno, false, func(n int) bool { return n >= k }); err != nil {
				return err
			}
			if !c.Pairs {
				continue
			}
			for l, further := k+1, reached; further && l <= k+12; l++ {
				n, err := stepped(fmt.Sprintf("calls %d and %d failed", k, l), errno, false, func(n int) bool { return n == k || n == l })
				if err != nil {
					return err
				}
				if further = n >= l; further {
					ctx.Hit("two calls failed")
				}
				if _, err := stepped(fmt.Sprintf("call %d and every one from %d on failed", k, l), errno, false, func(n int) bool { return n == k || n >= l }); err != nil {
					return err
				}
			}
		}
	} else {
		ctx.Hit("no stepping here")
	}
	for _, f := range c.Crash {
		n := f.N * size / 10000
		if f.K == "crash-step" {
			n = f.N
		}
		how, err := saveCrashing(ctx, dir, name, append(append([]Op{}, c.Old...), c.New...), newM.Expanded, f.K, n)
		if err != nil {
			panic(harnessError{err})
		}
		ctx.Hit(f.K + ": " + how)
		what := fmt.Sprintf("after a process that ended at %s %d during the save (%s)", f.K, n, how)
		possible := []*Model{saved[name], newM}
		if how == "saved" {
			possible = []*Model{newM}
		} else if how == "failed" {
			possible = []*Model{saved[name]}
		}
		which, err := verify(what, possible...)
		if err != nil {
			return err
		}
		if possible[which] == newM {
			if err := saveOld(); err != nil {
				return err
			}
		}
	}
	if failed > 0 && worked > 0 && len(oldM.Items) > 0 {
		ctx.NonTrivial()
	}
	return nil
}

// saveCrashing saves in a process of its own, which is stopped in the middle.
func saveCrashing(ctx *Ctx, dir, name string, ops []Op, expanded, fault string, n int) (string, error) {
	b, err := json.Marshal(childCase{dir, name, ops, expanded, fault, n})
	if err != nil {
		return "", err
	}
	cmd := exec.Command(os.Args[0], "child", "save")
	cmd.Stdin = strings.NewReader(string(b))
	out, err := cmd.Output()
	switch {
	case strings.Contains(string(out), "saved"):
		return "saved", nil
	case strings.Contains(string(out), "failed"):
		return "failed", nil
	case strings.Contains(string(out), "machinery"):
		return "", fmt.Errorf("%s", out)
	case err != nil && strings.Contains(string(out), "saving"):
		return "stopped", nil
	}
	return "", fmt.Errorf("child ended with %v: %q", err, out)
}

func init() {
	register(Prop{ID: "C02", Quick: 80000, Thorough: 300000, Quiet: true,
		Rule:        "histories of up to 14 saves, loads (by name, or by the path of the file a save made), listings and reloads over two directories (one of them at times the default one, under a scratch HOME), two persistence instances each and a third that goes from one to the other, saves, loads and listings at the same time, three worlds in memory that are edited in between, and names from plain to long, dotted, spaced, ending in .world or holding path separators; non-trivial when some directory gets several worlds or one is saved again",
		Assumptions: []string{"negative versions, the files behind the interface, and listing a directory that does not exist are left open", "names with a path separator may be refused; what they must not do is touch anything outside the directory"}},
		genFilesCase, runC02)
	register(Prop{ID: "C03", Quick: 6000, Thorough: 40000, Quiet: true, Level: "fault_enumeration",
		Rule:        "up to three saved worlds; one is saved again with new content while a fault is injected: files take only k bytes (0, 1, half, all but one, line ends, drawn positions, in a tenth of the cases every k), a write, fsync, fchmod, close, rename, open or unlink fails with an errno, each single call that changes the storage fails in turn, alone or with all after it (in some cases also each two of them), or the process is stopped at one of those; after each fault every world and the listing are read again; non-trivial when some faults made the save fail, some did not, and the old world holds items",
		Assumptions: []string{"size limits (RLIMIT_FSIZE) and failing system calls (seccomp) stand for full or failing storage", "no power loss: what was written before a stop stays written"}},
		genFaultCase, runC03)
}

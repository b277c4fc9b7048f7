package main

// C16: worlds, sessions, trees, parses and errors do not affect one another, and what was handed out stays
// as it is. The check is built with the race detector where that is possible.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

// lane is one object and what is done to it.
type lane struct {
	K     string    `json:"k"` // world, session, tree, parse, errors
	Ops   []Op      `json:"ops,omitempty"`
	Steps []Step    `json:"steps,omitempty"`
	Tree  *treeCase `json:"tree,omitempty"`
	Texts []Any     `json:"texts,omitempty"`
	Errs  []ErrStep `json:"errs,omitempty"`
}

func (l *lane) len() int {
	switch l.K {
	case "world":
		return len(l.Ops)
	case "session":
		return len(l.Steps)
	case "tree":
		return len(l.Tree.Steps)
	case "parse":
		return len(l.Texts)
	}
	return len(l.Errs)
}

type apartCase struct {
	Lanes    []lane `json:"lanes"`
	Order    []int  `json:"order,omitempty"` // which lane moves; afterwards the rest of each in turn
	Parallel bool   `json:"parallel"`
	Scribble bool   `json:"scribble"` // write into everything handed out
}

func genApartCase(t *rapid.T) apartCase {
	c := apartCase{Parallel: chance(t, "parallel", 25), Scribble: chance(t, "scribble", 40)}
	n := rapid.IntRange(1, 4).Draw(t, "lanes")
	ids := genIds(t, 2, 6) // shared, so that mix-ups show
	total := 0
	for i := 0; i < n; i++ {
		l := lane{K: []string{"world", "session", "tree", "parse", "errors"}[weighted(t, "k", 34, 30, 14, 12, 10)]}
		k := size(t, "n", 2, 20, 80)
		switch l.K {
		case "world":
			g := &opGen{ids: ids, m: newModel("w"), mix: evenMix}
			for j := 0; j < k; j++ {
				l.Ops = append(l.Ops, g.draw(t))
			}
		case "session":
			l.Steps = genStepsCase(t, false).Steps
			if len(l.Steps) > 25 {
				l.Steps = l.Steps[:25]
			}
		case "tree":
			tc := genTreeCase(t, ids)
			if len(tc.Steps) > 20 {
				tc.Steps = tc.Steps[:20]
			}
			l.Tree = &tc
		case "parse":
			g := &cmdGen{ids: ids, m: newModel("w"), mix: sessionMix}
			for j := 0; j < k/2+1; j++ {
				cm := g.draw(t)
				switch weighted(t, "text", 50, 20, 15, 15) {
				case 0:
					l.Texts = append(l.Texts, Any(cm.line()))
				case 1:
					l.Texts = append(l.Texts, Any(newSpeller(0).world(g.m, new(grammar.Node), new([]string), new([][2]string))))
				case 2:
					l.Texts = append(l.Texts, Any(spellTree(newSpeller(0), g.m, "")))
				default:
					l.Texts = append(l.Texts, Any(pick(t, "other", []string{"item a\n$$$$\n200 ok ", "true\n$$$$\n200 ok x", "404 error \"a: b\"", "item", "rel a", "bogus"})))
				}
			}
		default:
			l.Errs = genErrSteps(t, k)
		}
		total += l.len()
		c.Lanes = append(c.Lanes, l)
	}
	if !c.Parallel && n > 1 {
		for i := 0; i < total; i++ {
			c.Order = append(c.Order, uniform(t, "order", n))
		}
	}
	return c
}

// apartErr is a violation that needs no second object: something handed out changed or changes the world.
type apartErr struct{ error }

// handout is a list or value that was handed out, with what it held then.
type handout struct {
	what string
	now  any
	then any
}

// runner is a lane under way.
type runner struct {
	l        *lane
	scribble bool
	r        *rand.Rand
	held     []handout

	w     world.World
	m     *Model
	a     app.App
	past  []*Model // before each command that counts
	ahead []*Model
	root  world.Tree
	f     *treeModel
	items itemPool
	pool  *errPool
	shown []string // the text of each error value when it was new
	texts map[string]string
}

func newRunner(l *lane, scribble bool, seed uint64) (*runner, error) {
	r := &runner{l: l, scribble: scribble, r: rand.New(rand.NewPCG(seed, 3)), texts: map[string]string{}}
	switch l.K {
	case "world":
		r.w, r.m = world.CreateWorld("w"), newModel("w")
	case "session":
		r.w, r.m = world.CreateWorld("w"), newModel("w")
		a, err := app.NewApp(r.w)
		if err != nil {
			return nil, err
		}
		r.a = a
	case "tree":
		var err error
		r.root, r.f, err = startTree(*l.Tree)
		if err != nil {
			return nil, err
		}
	case "errors":
		r.pool = newErrPool()
	}
	return r, nil
}

// hold keeps a list or value that was handed out; a copy tells later whether it changed.
func hold[T any](r *runner, what string, list []T) {
	if len(r.held) < 60 && !r.scribble {
		r.held = append(r.held, handout{what, list, append([]T{}, list...)})
	}
}

func spoilItems(l []world.Item) {
	for i := range l {
		l[i] = world.Item{Id: "spoilt", Name: "spoilt", Type: 3, External: true}
	}
	_ = append(l[:0], world.Item{Id: "more"}, world.Item{Id: "more2"})
}

func spoilRels(l []world.Rel) {
	for i := range l {
		l[i].From.Name, l[i].To = "spoilt", world.Item{Id: "spoilt"}
		l[i].Verb, l[i].Async = "spoilt", !l[i].Async
	}
	_ = append(l[:0], world.Rel{Verb: "more"})
}

func spoilStrings(l []string) {
	for i := range l {
		l[i] = "spoilt"
	}
	_ = append(l[:0], "more", "more2")
}

// handOuts takes lists and values from a world, and keeps them or writes into them.
func (r *runner) handOuts() {
	w, m := r.w, r.m
	items, rels := w.ItemList(0), w.RelList(0)
	few, fewRels := w.ItemList(2), w.RelList(1)
	lists := [][]world.Item{items, few}
	rlists := [][]world.Rel{rels, fewRels}
	slists := [][]string{}
	if len(m.Items) > 0 {
		ids := sortedKeys(m.Items)
		id := ids[r.r.IntN(len(ids))]
		other := ids[r.r.IntN(len(ids))]
		if l, ok := w.Components(id); ok {
			slists = append(slists, l)
		}
		if l, ok := w.ItemComponents(id); ok {
			lists = append(lists, l)
		}
		rlists = append(rlists, w.RelFrom(id, true), w.RelFrom(id, false), w.RelTo(id, true), w.RelTo(id, false), w.RelFetch(id, other, true), w.RelFetch(id, other, false))
		if it, ok := w.ItemFetch(id); ok {
			lists = append(lists, []world.Item{it})
		}
	}
	if iw, ok := w.(world.WorldWithItem); ok {
		if it, err := iw.Item(); err == nil {
			lists = append(lists, []world.Item{it})
		}
	}
	if rw, ok := w.(world.WorldWithRel); ok {
		if rel, err := rw.Rel(); err == nil {
			rlists = append(rlists, []world.Rel{rel})
		}
	}
	for _, l := range lists {
		hold(r, "items", l)
		if r.scribble {
			spoilItems(l)
		}
	}
	for _, l := range rlists {
		hold(r, "relationships", l)
		if r.scribble {
			spoilRels(l)
		}
	}
	for _, l := range slists {
		hold(r, "component ids", l)
		if r.scribble {
			spoilStrings(l)
		}
	}
}

// stable tells whether everything handed out is as it was.
func (r *runner) stable() error {
	for _, h := range r.held {
		if !reflect.DeepEqual(h.now, h.then) {
			return apartErr{fmt.Errorf("a list of %s handed out earlier changed from %+v to %+v", h.what, h.then, h.now)}
		}
	}
	return nil
}

// doShared runs an operation with parameters whose variables are used for something else afterwards.
func doShared(w world.World, o Op) error {
	spoil := func(ss ...*string) {
		for _, s := range ss {
			if s != nil {
				*s = "spoilt"
			}
		}
	}
	flip := func(b *bool) {
		if b != nil {
			*b = !*b
		}
	}
	switch o.K {
	case "create", "set":
		p := itemParams(o.P)
		if o.K == "create" {
			w.ItemCreate(o.A, p)
		} else {
			w.ItemSet(o.A, p)
		}
		if !reflect.DeepEqual(p, itemParams(o.P)) {
			return apartErr{fmt.Errorf("%+v changed the parameters it was given", o)}
		}
		spoil(p.Name, p.Mechanism, p.Expanded, p.Type)
		flip(p.External)
	case "rcreate", "rset":
		p := relParams(o.P)
		if o.K == "rcreate" {
			w.RelCreate(o.A, o.B, p)
		} else {
			w.RelSet(o.A, o.B, p)
		}
		if !reflect.DeepEqual(p, relParams(o.P)) {
			return apartErr{fmt.Errorf("%+v changed the parameters it was given", o)}
		}
		spoil(p.Verb, p.Mechanism, p.Expanded)
		flip(p.Async)
	default:
		do(w, o)
	}
	return nil
}

func parsed(p *grammar.Parser) string {
	b, err := json.Marshal(struct {
		Type    string
		In      grammar.InputAttributes
		Resp    grammar.Response
		Items   []string
		Rels    []string
		World   map[string]string
		Tree    grammar.Node
		TreeStr string
	}{p.StmtType, p.InputAttributes, p.Response, p.ItemStrings, p.RelStrings, p.WorldParams, p.Tree, p.TreeString})
	if err != nil {
		panic(harnessError{err})
	}
	return string(b)
}

func spoilParse(p *grammar.Parser) {
	spoilStrings(p.InputAttributes.ResourceIds)
	spoilStrings(p.InputAttributes.SecondaryIds)
	spoilStrings(p.InputAttributes.Flags)
	spoilStrings(p.ItemStrings)
	spoilStrings(p.RelStrings)
	for k := range p.InputAttributes.Params {
		p.InputAttributes.Params[k] = "spoilt"
	}
	for k := range p.WorldParams {
		p.WorldParams[k] = "spoilt"
	}
	if p.InputAttributes.Params != nil {
		p.InputAttributes.Params["more"] = "spoilt"
	}
	if p.WorldParams != nil {
		p.WorldParams["more"] = "spoilt"
	}
	for i := range p.Tree.Children {
		p.Tree.Children[i] = grammar.Node{Id: "spoilt"}
	}
}

func (r *runner) step(i int) error {
	switch r.l.K {
	case "world":
		o := r.l.Ops[i]
		r.m.apply(o)
		if r.scribble {
			if err := doShared(r.w, o); err != nil {
				return err
			}
		} else {
			do(r.w, o)
		}
		if r.r.IntN(3) == 0 {
			r.handOuts()
		}
	case "session":
		return r.session(r.l.Steps[i])
	case "tree":
		return stepTree(r.root, r.f, r.l.Tree.Steps[i], r.items)
	case "parse":
		text := string(r.l.Texts[i])
		p, err := grammar.Parse(text)
		if err != nil {
			return nil
		}
		now := parsed(p)
		if then, ok := r.texts[text]; ok && then != now {
			return apartErr{fmt.Errorf("%q reads as %s, earlier as %s", clip(text), now, then)}
		}
		r.texts[text] = now
		if r.scribble {
			spoilParse(p)
			again, err := grammar.Parse(text)
			if err != nil || parsed(again) != now {
				return apartErr{fmt.Errorf("%q reads otherwise after the result of an earlier parse was changed", clip(text))}
			}
		} else {
			r.held = append(r.held, handout{"parse result", parseView{p}, now})
		}
	case "errors":
		return r.errors(r.l.Errs[i])
	}
	return nil
}

// errors derives one more error value. The earlier ones were right before, so when one of them is not
// right any more, or shows another text, then deriving a value changed it.
func (r *runner) errors(s ErrStep) error {
	had := len(r.pool.vals)
	r.pool.step(s)
	for i, e := range r.pool.vals {
		err := sameError(r.pool.models[i], e, 2)
		if i >= had {
			r.shown = append(r.shown, "")
			if text := e.Error(); len(text) < 5000 {
				r.shown[i] = text
			}
		} else if err == nil && r.shown[i] != "" {
			if text := e.Error(); text != r.shown[i] {
				err = fmt.Errorf("reads %q, before it read %q", clip(text), clip(r.shown[i]))
			}
		}
		if err != nil && i < had {
			return apartErr{fmt.Errorf("deriving value %d (%s) changed value %d: it %w", had+1, s.K, i+1, err)}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type parseView struct{ p *grammar.Parser }

func (r *runner) session(s Step) error {
	switch s.K {
	case "exec":
		if s.Cmd == nil {
			return nil
		}
		next := r.m.clone()
		want := next.answer(*s.Cmd)
		got := r.a.Exec(s.Cmd.line())
		if err := judge(want, got, next); err != nil {
			return fmt.Errorf("%q: %w", s.Cmd.line(), err)
		}
		if want.OK {
			r.past = append(r.past, r.m)
			r.ahead = nil
		}
		r.m = next
	case "text":
		r.a.Exec(s.Text)
	case "undo":
		err, _, ok := undo(r.a)
		if !ok || len(r.past) == 0 {
			return nil
		}
		if err != nil {
			return err
		}
		r.ahead = append(r.ahead, r.m)
		r.m, r.past = r.past[len(r.past)-1], r.past[:len(r.past)-1]
	case "redo":
		err, _, ok := redo(r.a)
		if !ok || len(r.ahead) == 0 {
			return nil
		}
		if err != nil {
			return err
		}
		r.past = append(r.past, r.m)
		r.m, r.ahead = r.ahead[len(r.ahead)-1], r.ahead[:len(r.ahead)-1]
	}
	h := r.a.History()
	if len(h) != len(r.past) {
		return fmt.Errorf("the history has %d commands, should be %d", len(h), len(r.past))
	}
	if r.scribble {
		// The list of the history is the caller's own.
		var was []app.Command
		was = append(was, h...)
		for i := range h {
			h[i] = nil
		}
		_ = append(h, nil)
		_ = append(h[:0], nil)
		now := r.a.History()
		for i := range was {
			if i >= len(now) || now[i] != was[i] {
				return apartErr{fmt.Errorf("writing into the list of the history changed the session's history")}
			}
		}
	} else {
		hold(r, "commands of the history", h)
	}
	if r.r.IntN(4) == 0 {
		r.handOuts()
	}
	return nil
}

func (r *runner) finish() error {
	for i := range r.held {
		if v, ok := r.held[i].now.(parseView); ok {
			r.held[i].now = parsed(v.p)
		}
	}
	if err := r.stable(); err != nil {
		return err
	}
	switch r.l.K {
	case "world", "session":
		return sameAs(r.m, r.w)
	case "tree":
		return checkTree(r.root, r.f, mention22(*r.l.Tree))
	case "errors":
		return r.pool.check(true)
	}
	return nil
}

// runLanes runs all lanes as the case says.
func runLanes(c apartCase) error {
	rs := make([]*runner, len(c.Lanes))
	errs := make([]error, len(c.Lanes))
	for i := range c.Lanes {
		var err error
		if rs[i], err = newRunner(&c.Lanes[i], c.Scribble, uint64(i)); err != nil {
			return err
		}
	}
	items := itemPool{}
	if !c.Parallel {
		for _, r := range rs {
			r.items = items
		}
	}
	name := func(i int, err error) error {
		return fmt.Errorf("%s %d: %w", c.Lanes[i].K, i+1, err)
	}
	if c.Parallel {
		var wg sync.WaitGroup
		panics := make([]any, len(rs))
		for i, r := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panics[i] = p
					}
				}()
				for k := 0; k < r.l.len() && errs[i] == nil; k++ {
					errs[i] = r.step(k)
				}
			}()
		}
		wg.Wait()
		for i := range rs {
			if h, ok := panics[i].(harnessError); ok {
				panic(h)
			}
			if panics[i] != nil {
				return name(i, fmt.Errorf("panic: %v", panics[i]))
			}
		}
	} else {
		at := make([]int, len(rs))
		move := func(i int) {
			if i < 0 || i >= len(rs) || at[i] >= rs[i].l.len() || errs[i] != nil {
				return
			}
			errs[i] = rs[i].step(at[i])
			at[i]++
		}
		for _, i := range c.Order {
			move(i)
		}
		for i := range rs {
			for at[i] < rs[i].l.len() && errs[i] == nil {
				move(i)
			}
		}
	}
	for i, r := range rs {
		if errs[i] != nil {
			return name(i, errs[i])
		}
		if err := r.finish(); err != nil {
			return name(i, err)
		}
	}
	if err := items.check(); err != nil {
		return apartErr{err}
	}
	return nil
}

func runC16(c apartCase, ctx *Ctx) error {
	if len(c.Lanes) > 1 {
		ctx.NonTrivial()
	} else if c.Scribble && len(c.Lanes) == 1 && c.Lanes[0].len() > 4 {
		ctx.NonTrivial()
	}
	if c.Parallel {
		ctx.Hit("parallel")
	}
	for _, l := range c.Lanes {
		ctx.Hit(l.K)
	}
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(harnessError); ok {
					panic(h)
				}
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		return runLanes(c)
	}()
	if err == nil {
		return nil
	}
	if a := (apartErr{}); errors.As(err, &a) {
		return err
	}
	// Something came out wrong. It is a matter of this property only if every lane is right when it runs
	// alone, in a process that did nothing before, and nothing handed out is written to.
	for _, l := range c.Lanes {
		if alone(apartCase{Lanes: []lane{l}}) != nil {
			ctx.Hit("wrong when alone, too")
			return nil
		}
	}
	return err
}

// alone runs a case in a process of its own.
func alone(c apartCase) error {
	b, err := json.Marshal(c)
	if err != nil {
		panic(harnessError{err})
	}
	cmd := exec.Command(os.Args[0], "child", "lanes")
	cmd.Stdin = strings.NewReader(string(b))
	return cmd.Run()
}

func childLanes() {
	var c apartCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		os.Exit(3)
	}
	for i := 0; i < 4; i++ {
		if runLanes(c) != nil {
			os.Exit(1)
		}
	}
	os.Exit(0)
}

func init() {
	register(Prop{ID: "C16", Quick: 16000, Thorough: 120000, Quiet: true,
		Rule:        "one to four objects (worlds, sessions with undo and redo, trees, parses, error values) with histories over the same ids, interleaved step by step in a drawn order or run in parallel under the race detector; lists and values handed out are kept and compared at the end, or written into right away; every object is compared with its own model; non-trivial with several objects, or one written into",
		Assumptions: []string{"an object that also goes wrong alone, in a fresh process, is a matter of other properties", "the set that a tree hands out as its components, and the item pointer given to a tree, are shared by design"}},
		genApartCase, runC16)
}

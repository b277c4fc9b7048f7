package main

// Properties of texts and what they are read as: C10, C11, C14, C15, C19.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

// --- C10 ---

type readCase struct {
	Cmd  *Cmd `json:"cmd,omitempty"`
	Text Any  `json:"text,omitempty"`
}

func genReadCase(t *rapid.T) readCase {
	g := &cmdGen{m: newModel("w"), mix: cmdMix{mutate: 60, query: 40, refuse: 0, flags: true}}
	g.ids = genIds(t, 1, 4)
	c := g.draw(t)
	if chance(t, "moreflags", 10) {
		c.F = append(c.F, pick(t, "flag", []string{"strict", "verbose", "ids"}))
	}
	if chance(t, "morespelling", 30) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	switch weighted(t, "how", 50, 22, 13, 15) {
	case 3:
		return readCase{Text: Any(partSalad(t, g.ids))}
	case 0:
		return readCase{Cmd: &c}
	case 1:
		return readCase{Text: Any(mutateText(t, c.line()))}
	default:
		return readCase{Text: Any(wordSalad(t, g.ids))}
	}
}

func runC10(c readCase, ctx *Ctx) error {
	if c.Cmd != nil {
		line := c.Cmd.line()
		// The reference reader must agree, or the harness is wrong about the line.
		if rc, v := refRead(line); v != accept || rc.line() != (Cmd{R: c.Cmd.R, V: c.Cmd.V, A: c.Cmd.A, B: c.Cmd.B, L: c.Cmd.L, P: rc.P, N: c.Cmd.N, H: c.Cmd.H, F: c.Cmd.F}).line() {
			panic(harnessError{fmt.Errorf("reference reader takes %q for %+v (%d)", line, rc, v)})
		}
		p, err := grammar.Parse(line)
		if err != nil || p.StmtType != "Command" {
			return violf("%q is not read as a command: %s %v", line, p.StmtType, err)
		}
		if err := sameAttributes(*c.Cmd, p.InputAttributes); err != nil {
			return violf("%q: %w", line, err)
		}
		if _, err := app.InputToCommand(p.InputAttributes); err != nil {
			return violf("%q makes no command: %w", line, err)
		}
		ctx.Hit(c.Cmd.R + " " + c.Cmd.V)
		for _, id := range append([]string{c.Cmd.A, c.Cmd.B}, c.Cmd.L...) {
			if id != "" && !bareId(id) {
				ctx.NonTrivial()
			}
			for k := range reserved {
				if bareId(id) && strings.HasPrefix(id, k) {
					ctx.NonTrivial()
					ctx.Hit("bare id that begins with a reserved word")
				}
			}
		}
		if len(c.Cmd.P) > 1 {
			ctx.NonTrivial()
		}
		return nil
	}
	line := string(c.Text)
	rc, v := refRead(line)
	p, err := grammar.Parse(line)
	isCmd := err == nil && p.StmtType == "Command"
	switch v {
	case accept:
		ctx.NonTrivial()
		ctx.Hit("changed text: command")
		if !isCmd {
			return violf("%q is not read as a command: %s %v", line, p.StmtType, err)
		}
		if err := sameAttributes(rc, p.InputAttributes); err != nil {
			return violf("%q: %w", line, err)
		}
	case reject:
		ctx.NonTrivial()
		ctx.Hit("changed text: no command")
		if isCmd {
			return violf("%q is no command but read as %+v", line, p.InputAttributes)
		}
	default:
		ctx.Hit("changed text: open")
	}
	return nil
}

// --- C11 ---

type respCase struct {
	Kind  string   `json:"kind"` // items, rels, ids, tree, world, none
	Ops   []Op     `json:"ops,omitempty"`
	Ids   []string `json:"ids,omitempty"`
	Real  bool     `json:"real,omitempty"`  // text as the code under test writes it
	Alone bool     `json:"alone,omitempty"` // world or tree without a status
	Code  int      `json:"code"`
	Zeros int      `json:"zeros,omitempty"` // before the code
	Word  string   `json:"word"`
	Msg   *string  `json:"msg,omitempty"`
	Bare  bool     `json:"bare,omitempty"`
	Q     uint64   `json:"q,omitempty"`
	Cut   float64  `json:"cut,omitempty"`
	Tail  string   `json:"tail,omitempty"`
	Lack  float64  `json:"lack,omitempty"` // a piece left out, or given twice
	Twice bool     `json:"twice,omitempty"`
}

var worldMix = mix{create: 25, set: 10, del: 4, nest: 25, free: 3, rcreate: 25, rset: 6, rdel: 2, info: 4}

func genRespCase(t *rapid.T) respCase {
	c := respCase{Kind: pick(t, "kind", []string{"items", "rels", "ids", "tree", "world", "world", "none"})}
	switch c.Kind {
	case "ids":
		c.Ids = genIds(t, 1, 8)
	case "none":
	default:
		c.Ops = genOps(t, worldMix)
		c.Real = chance(t, "real", 30)
		c.Alone = (c.Kind == "tree" || c.Kind == "world") && chance(t, "alone", 25)
	}
	c.Code = pick(t, "code", []int{200, 400, 404, 450, 500, 0, 7, 201, 600, 12345, 10, 89})
	if chance(t, "leading zeros", 15) {
		c.Zeros = rapid.IntRange(1, 3).Draw(t, "zeros")
	}
	c.Word = pick(t, "word", []string{"ok", "ok", "error"})
	if chance(t, "msg", 60) {
		m := genText(t)
		c.Msg = &m
		c.Bare = isBare(m) && chance(t, "bare", 50)
	}
	if chance(t, "spelling", 50) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	if !c.Alone {
		switch weighted(t, "damage", 70, 18, 12) {
		case 1:
			c.Cut = rapid.Float64Range(0.0001, 0.9999).Draw(t, "cut")
		case 2:
			c.Tail = pick(t, "tail", []string{"=", " [x]", " \"", "?", "\n$$$$\n200 ok", " errors=[\"x\"]", ".", "\x00", " name=x", "\nendworld$$"})
		}
	}
	if c.Cut == 0 && c.Tail == "" && chance(t, "lack", 30) {
		c.Lack = rapid.Float64Range(0.0001, 0.9999).Draw(t, "lacking")
		c.Twice = chance(t, "twice", 20)
	}
	return c
}

func runC11(c respCase, ctx *Ctx) error {
	s := newSpeller(c.Q)
	m := modelOf("w", c.Ops)
	obj := ""
	var node grammar.Node
	var items []string
	var rels [][2]string
	switch c.Kind {
	case "items":
		for _, id := range sortedKeys(m.Items) {
			items = append(items, id)
		}
		s.shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		var ls []string
		for _, id := range items {
			if c.Real {
				ls = append(ls, realItem(m.Items[id]).String())
			} else {
				ls = append(ls, s.item(m.Items[id]))
			}
		}
		obj = strings.Join(ls, "\n")
	case "rels":
		rels = m.relKeys()
		s.shuffle(len(rels), func(i, j int) { rels[i], rels[j] = rels[j], rels[i] })
		var ls []string
		for _, k := range rels {
			r := m.Rels[k]
			if c.Real {
				ls = append(ls, world.Rel{From: world.Item{Id: r.From}, To: world.Item{Id: r.To}, Verb: r.Verb, Mechanism: r.Mech, Expanded: r.Exp, Async: r.Async}.String())
			} else {
				ls = append(ls, s.rel(r))
			}
		}
		obj = strings.Join(ls, "\n")
	case "ids":
		for i, id := range c.Ids {
			if i > 0 {
				obj += s.gap()
			}
			obj += s.id(id)
		}
	case "tree":
		obj = s.tree(m, "", &node, &items)
		if c.Real {
			t, err := treeOf(m, c.Q)
			if err != nil {
				return err
			}
			obj = t.String()
		}
	case "world":
		obj = s.world(m, &node, &items, &rels)
		if c.Real {
			obj = build("w", c.Ops).String()
		}
	}
	text := obj
	if !c.Alone {
		text += fmt.Sprintf("\n$$$$\n%s%d %s", strings.Repeat("0", c.Zeros), c.Code, c.Word)
		whole := len(text) // cut before here, it is no response
		msg := ""
		if c.Msg != nil {
			msg = *c.Msg
			if c.Bare {
				text += s.gap() + msg
			} else {
				text += s.gap() + `"` + msg + `"`
			}
		} else if s.yes(50) {
			text += " "
		}
		if c.Cut > 0 || c.Tail != "" {
			damaged := text + c.Tail
			if c.Cut > 0 {
				at := int(c.Cut * float64(len(text)))
				if at >= whole {
					// Inside of a quoted message, or harmless.
					open := strings.Count(text[whole:at], `"`)
					if c.Msg == nil || c.Bare || open != 1 {
						return nil
					}
				}
				damaged = text[:at]
				ctx.Hit("cut off")
			} else {
				ctx.Hit("something after it")
			}
			ctx.NonTrivial()
			p, err := grammar.Parse(damaged)
			if err == nil && p.StmtType == "Response" {
				return violf("%q is read as a response", clip(damaged))
			}
			return nil
		}
		p, err := grammar.Parse(text)
		if err != nil || p.StmtType != "Response" {
			return violf("%q is not read as a response: %s %v", clip(text), p.StmtType, err)
		}
		if st := p.Response.Status; st.Code != c.Code || st.Message != msg {
			return violf("status of %q is read as %d %q", clip(text), st.Code, st.Message)
		}
	}
	p, err := grammar.Parse(text)
	if err != nil {
		return violf("%q is not read: %v", clip(text), err)
	}
	if c.Lack > 0 {
		damaged, piece := lacking(text, c.Lack, c.Twice)
		if piece == "" || (c.Alone && strings.HasPrefix(damaged, text)) || ((piece == "ok" || piece == "error") && c.Bare && (*c.Msg == "ok" || *c.Msg == "error")) {
			return nil
		}
		ctx.NonTrivial()
		ctx.Hit("a piece missing or too many")
		if q, err := grammar.Parse(damaged); err == nil && q.StmtType == p.StmtType {
			return violf("%q is read as %s, with %q missing or twice: %q", clip(damaged), q.StmtType, piece, damaged)
		}
		return nil
	}
	if c.Alone {
		want := map[string]string{"world": "WorldObject", "tree": "Tree"}[c.Kind]
		if p.StmtType != want {
			return violf("%q is read as %s", clip(text), p.StmtType)
		}
	}
	o := p.Response.Object
	kind := map[string]string{"items": "item", "rels": "rel", "ids": "ids", "tree": "tree", "world": "world", "none": ""}[c.Kind]
	if (c.Kind == "items" && len(items) == 0) || (c.Kind == "rels" && len(rels) == 0) {
		kind = ""
	}
	if o.Type != kind {
		return violf("object of %q is read as %q", clip(text), o.Type)
	}
	ctx.Hit(c.Kind)
	switch {
	case c.Kind == "ids":
		var ids []string
		if err := json.Unmarshal([]byte(o.Repr), &ids); err != nil || !equalStrings(ids, c.Ids) || !equalStrings(p.InputAttributes.ResourceIds, c.Ids) {
			return violf("ids of %q are read as %q, %q", clip(text), o.Repr, p.InputAttributes.ResourceIds)
		}
		if len(c.Ids) > 1 {
			ctx.NonTrivial()
		}
		return nil
	case c.Kind == "none":
		return nil
	case c.Kind == "items" && len(items) == 1, c.Kind == "rels" && len(rels) == 1, c.Kind == "tree":
		if strings.TrimSpace(o.Repr) != strings.TrimSpace(obj) {
			return violf("object of %q is given as %q", clip(text), clip(o.Repr))
		}
	}
	// Every item and relationship once and in order.
	var gotItems []MItem
	var gotRels []MRel
	for _, l := range p.ItemStrings {
		rc, v := refRead(l)
		if v != accept || rc.R != "item" || (rc.V != "cof" && rc.V != "cos") {
			return violf("an item of %q is given as %q", clip(text), clip(l))
		}
		gotItems = append(gotItems, setItem(MItem{Id: rc.A}, rc.params()))
	}
	for _, l := range p.RelStrings {
		rc, v := refRead(l)
		if v != accept || rc.R != "rel" || (rc.V != "cof" && rc.V != "cos") {
			return violf("a relationship of %q is given as %q", clip(text), clip(l))
		}
		gotRels = append(gotRels, setRel(MRel{From: rc.A, To: rc.B}, rc.params()))
	}
	ordered := !c.Real || c.Kind == "items" || c.Kind == "rels"
	if len(gotItems) != len(items) {
		return violf("%d items are read from %q, it has %d", len(gotItems), clip(text), len(items))
	}
	seen := map[string]bool{}
	for i, it := range gotItems {
		if want := m.Items[it.Id]; want != it || seen[it.Id] || (ordered && items[i] != it.Id) {
			return violf("item %d of %q is read as %+v, it says %+v", i+1, clip(text), it, m.Items[items[i]])
		}
		seen[it.Id] = true
	}
	if len(gotRels) != len(rels) {
		return violf("%d relationships are read from %q, it has %d", len(gotRels), clip(text), len(rels))
	}
	seenRel := map[[2]string]bool{}
	for i, r := range gotRels {
		k := [2]string{r.From, r.To}
		if want := m.Rels[k]; want != r || seenRel[k] || (ordered && rels[i] != k) {
			return violf("relationship %d of %q is read as %+v, it says %+v", i+1, clip(text), r, m.Rels[rels[i]])
		}
		seenRel[k] = true
	}
	if !c.Alone || c.Kind == "world" {
		if err := sameAgain(p, text); err != nil {
			return err
		}
	}
	if c.Kind == "items" || c.Kind == "rels" {
		if len(items)+len(rels) > 1 {
			ctx.NonTrivial()
		}
		return nil
	}
	if ordered {
		if !sameNode(node, p.Tree) {
			return violf("tree of %q is read as %+v", clip(text), p.Tree)
		}
	} else if err := sameNesting(m, p.Tree); err != nil {
		return violf("tree of %q: %w", clip(text), err)
	}
	if c.Kind == "world" {
		for k, want := range map[string]string{"version": fmt.Sprint(m.Version), "id": m.Id, "name": m.Name, "expanded": m.Expanded} {
			if got := strings.Trim(p.WorldParams[k], `"`); got != want {
				return violf("%s of %q is read as %q", k, clip(text), got)
			}
		}
	}
	if m.depth() > 1 {
		ctx.NonTrivial()
	}
	return nil
}

// sameAgain reads the text which a read response or world gives for its object: it holds all that was read.
func sameAgain(p *grammar.Parser, text string) error {
	o := p.Response.Object
	again := o.Repr + "\n$$$$\n200 ok"
	if o.Type == "world" {
		again = "$$world\n" + o.Repr + "\nendworld$$"
	}
	q, err := grammar.Parse(again)
	if err != nil && o.Type == "world" {
		q, err = grammar.Parse(o.Repr) // with its frame
	}
	if err != nil {
		return violf("object of %q is given as %q, which does not read: %v", clip(text), clip(o.Repr), err)
	}
	lines := func(ls []string) []string {
		var r []string
		for _, l := range ls {
			r = append(r, strings.TrimSpace(l))
		}
		return r
	}
	if q.Response.Object.Type != o.Type || !equalStrings(lines(p.ItemStrings), lines(q.ItemStrings)) || !equalStrings(lines(p.RelStrings), lines(q.RelStrings)) || !sameNode(p.Tree, q.Tree) {
		return violf("object of %q is given as %q, which is not all of it", clip(text), clip(o.Repr))
	}
	for _, k := range []string{"version", "id", "name", "expanded"} {
		if p.WorldParams[k] != q.WorldParams[k] {
			return violf("%s of %q is given as %q", k, clip(text), clip(o.Repr))
		}
	}
	return nil
}

// sameNesting compares a tree of ids with the model, whatever the order.
func sameNesting(m *Model, top grammar.Node) error {
	if top.Id != "nil" {
		return fmt.Errorf("the top is read as %q", top.Id)
	}
	seen := map[string]string{}
	var walk func(n grammar.Node, parent string) error
	walk = func(n grammar.Node, parent string) error {
		for _, c := range n.Children {
			if _, dup := seen[c.Id]; dup {
				return fmt.Errorf("%q is read twice", c.Id)
			}
			seen[c.Id] = parent
			if err := walk(c, c.Id); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(top, ""); err != nil {
		return err
	}
	a := &Model{Items: map[string]MItem{}, Parent: m.Parent}
	b := &Model{Items: map[string]MItem{}, Parent: seen}
	for id := range m.Parent {
		a.Items[id] = MItem{Id: id}
	}
	for id := range seen {
		b.Items[id] = MItem{Id: id}
	}
	if d := diff(a, b); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// --- C14 ---

type textCase struct {
	Ops  []Op    `json:"ops"`
	Sub  int     `json:"sub,omitempty"` // the item at the top of a subtree
	Q    uint64  `json:"q,omitempty"`
	Cut  float64 `json:"cut,omitempty"`
	Text []Any   `json:"text,omitempty"` // texts of any kind
	Cmds []Cmd   `json:"cmds,omitempty"` // commands, which are mostly no objects
}

func genTextCase(t *rapid.T) textCase {
	c := textCase{Ops: genOps(t, worldMix), Sub: rapid.IntRange(0, 20).Draw(t, "sub")}
	if chance(t, "spelling", 50) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	c.Cut = rapid.Float64Range(0, 0.9999).Draw(t, "cut")
	g := &cmdGen{m: newModel("w"), mix: cmdMix{mutate: 60, query: 40}}
	g.ids = []string{"a", "b", "c"}
	for _, o := range c.Ops {
		if o.K == "create" && o.A != "" && len(g.ids) < 8 {
			g.ids = append(g.ids, o.A)
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "cmds"); i > 0; i-- {
		c.Cmds = append(c.Cmds, g.draw(t))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "texts"); i > 0; i-- {
		base := g.draw(t).line()
		if chance(t, "object", 40) {
			base = pick(t, "base", []string{`item "a" name="x"`, `rel "a" "b" verb="x"`, `item "a"`, `rel "a" "b"`, `tree{nil::[tree{item "a"::[]} tree{item "b"::[]}]}`, `tree{item "a"::[tree{item "b"::[]}]}`})
		}
		c.Text = append(c.Text, Any(genNoise(t, g.ids, base)))
	}
	return c
}

func runC14(c textCase, ctx *Ctx) error {
	w := build("w", c.Ops)
	m, err := observe(w)
	if err != nil {
		return err
	}
	s := newSpeller(c.Q)
	attrs := false
	for _, id := range sortedKeys(m.Items) {
		it, _ := w.ItemFetch(id)
		for _, text := range []string{it.String(), s.item(m.Items[id])} {
			got, err := world.ItemFromString(text)
			if err != nil || mitem(got) != mitem(it) || !world.ItemEqual(got, it) {
				return violf("item text %q is read as %+v (%v)", clip(text), got, err)
			}
		}
		attrs = attrs || m.Items[id] != MItem{Id: id}
		if err := notOther(w, it.String(), "item"); err != nil {
			return err
		}
	}
	for _, r := range w.RelList(0) {
		k := [2]string{r.From.Id, r.To.Id}
		for _, text := range []string{r.String(), s.rel(m.Rels[k])} {
			got, err := world.RelFromString(w, text)
			if err != nil || mrel(got) != mrel(r) || mitem(got.From) != mitem(r.From) || mitem(got.To) != mitem(r.To) || !world.RelEqual(got, r) {
				return violf("relationship text %q is read as %+v (%v)", clip(text), got, err)
			}
		}
		if err := notOther(w, r.String(), "rel"); err != nil {
			return err
		}
	}
	t, err := treeOf(m, c.Q)
	if err != nil {
		return err
	}
	top := ""
	if c.Sub > 0 && len(m.Items) > 0 { // the subtree of an item
		ids := sortedKeys(m.Items)
		top = ids[c.Sub%len(ids)]
		if st, ok := t.Find(top); !ok {
			return violf("%q is not found in its tree", top)
		} else {
			t = st
		}
	}
	want := m.subForest(top)
	var node grammar.Node
	var order []string
	for _, text := range []string{t.String(), s.tree(m, top, &node, &order)} {
		got, items, err := world.TreeFromString(text)
		if err != nil {
			return violf("tree text %q is not readable: %v", clip(text), err)
		}
		f, err := walkTree(got)
		if err == nil {
			err = sameForest(want, f)
		}
		if err != nil {
			return violf("tree text %q: %w", clip(text), err)
		}
		if !world.TreeEqual(t, got) || !world.TreeEqual(got, t) {
			return violf("the tree read from %q does not compare equal", clip(text))
		}
		if len(items) != len(want.items) {
			return violf("tree text %q yields %d items, it has %d", clip(text), len(items), len(want.items))
		}
		for id, it := range items {
			if mitem(it) != want.items[id] {
				return violf("tree text %q yields item %q as %+v", clip(text), id, it)
			}
		}
		for id := range want.items {
			if n, ok := got.Find(id); !ok || mitem(n.Item()) != want.items[id] || n.Root() != got {
				return violf("%q is not found in the tree read from %q", id, clip(text))
			}
		}
		if err := notOther(w, text, "tree"); err != nil {
			return err
		}
		if at := int(c.Cut * float64(len(text))); at > 0 {
			cut := text[:at]
			if _, _, err := world.TreeFromString(cut); err == nil {
				return violf("%q, a tree cut off, is read as a tree", clip(cut))
			}
			if err := decide(w, m, cut, ctx); err != nil {
				return err
			}
			damaged, piece := lacking(text, c.Cut, c.Sub%4 == 3)
			if _, _, err := world.TreeFromString(damaged); err == nil && piece != "" && !strings.HasPrefix(damaged, text) {
				return violf("%q, a tree with %q missing or twice, is read as a tree", clip(damaged), piece)
			}
		}
	}
	if attrs && len(m.Rels) > 0 && m.depth() > 1 {
		ctx.NonTrivial()
	}
	for _, text := range []string{w.String(), w.String() + "\n$$$$\n200 ok ", t.String() + "\n$$$$\n200 ok ", "200 ok", `404 error "Not found: x"`, "world", "item list", "$$world"} {
		if err := notOther(w, text, ""); err != nil {
			return err
		}
	}
	for _, cm := range c.Cmds {
		if err := decide(w, m, cm.line(), ctx); err != nil {
			return err
		}
	}
	for _, text := range c.Text {
		if err := decide(w, m, string(text), ctx); err != nil {
			return err
		}
	}
	return nil
}

// notOther checks that text of one kind is not read as another.
func notOther(w world.World, text, kind string) error {
	if kind != "item" {
		if it, err := world.ItemFromString(text); err == nil {
			return violf("%q is read as item %+v", clip(text), it)
		}
	}
	if kind != "rel" {
		if r, err := world.RelFromString(w, text); err == nil {
			return violf("%q is read as relationship %+v", clip(text), r)
		}
	}
	if kind != "tree" {
		if _, _, err := world.TreeFromString(text); err == nil {
			return violf("%q is read as a tree", clip(text))
		}
	}
	return nil
}

// decide checks that any text is read as an item or relationship exactly if it is the text of one.
func decide(w world.World, m *Model, text string, ctx *Ctx) error {
	rc, v := refRead(text)
	if v == accept && rc.R != "world" && rc.V != "list" && rc.A == "" && rc.V != "nest" && rc.V != "free" {
		v = abstain // an empty id
	}
	isItem := v == accept && rc.R == "item" && (rc.V == "cof" || rc.V == "cos")
	isRel := v == accept && rc.R == "rel" && (rc.V == "cof" || rc.V == "cos")
	it, err := world.ItemFromString(text)
	if v != abstain {
		switch want := setItem(MItem{Id: rc.A}, rc.params()); {
		case isItem && (err != nil || mitem(it) != want):
			return violf("item text %q is read as %+v (%v)", clip(text), it, err)
		case !isItem && err == nil:
			return violf("%q is read as item %+v", clip(text), it)
		}
	}
	r, err := world.RelFromString(w, text)
	if v != abstain {
		_, ok1 := m.Items[rc.A]
		_, ok2 := m.Items[rc.B]
		switch want := setRel(MRel{From: rc.A, To: rc.B}, rc.params()); {
		case isRel && ok1 && ok2 && (err != nil || mrel(r) != want || mitem(r.From) != m.Items[rc.A] || mitem(r.To) != m.Items[rc.B]):
			return violf("relationship text %q is read as %+v (%v)", clip(text), r, err)
		case !(isRel && ok1 && ok2) && err == nil:
			return violf("%q is read as relationship %+v", clip(text), r)
		}
	}
	if isItem || isRel {
		ctx.Hit("other text: an object")
	} else if v == reject {
		ctx.Hit("other text: no command")
	} else if v == accept {
		ctx.Hit("other text: a command")
	}
	t, items, err := world.TreeFromString(text)
	if err != nil || text == "" {
		return nil
	}
	if v == accept {
		return violf("%q, a command, is read as a tree", clip(text))
	}
	if _, ok := items[""]; ok {
		return nil // an empty id
	}
	ctx.Hit("other text: a tree")
	f, err := walkTree(t)
	if err != nil {
		return violf("%q is read as a broken tree: %w", clip(text), err)
	}
	if len(items) != len(f.items) {
		return violf("%q is read as a tree of %d items and yields %d", clip(text), len(f.items), len(items))
	}
	t2, _, err := world.TreeFromString(t.String())
	if err != nil || !world.TreeEqual(t, t2) {
		return violf("%q is read as a tree whose text %q does not read back (%v)", clip(text), clip(t.String()), err)
	}
	return nil
}

// --- C15 ---

type equalCase struct {
	Ops []Op    `json:"ops"`
	Q1  uint64  `json:"q1"`
	Q2  uint64  `json:"q2"`
	D   []Delta `json:"d"`
}

// Delta is one difference.
type Delta struct {
	K    string `json:"k"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	Text string `json:"text"`
	How  int    `json:"how,omitempty"` // make the text resemble the one there is
}

var deltas = []string{"name", "mechanism", "expanded", "external", "type", "id", "parent", "add", "remove", "swapattrs",
	"verb", "rmechanism", "rexpanded", "async", "radd", "rremove", "rreverse", "rto", "rfrom", "rswap", "wversion", "wid", "wname", "wexpanded", "swaplaces", "swapfamilies", "shift", "exchange", "rshift", "rexchange", "wshift", "wexchange"}

// shift moves part of a text, or all of it, over to the next; exchange swaps two of them.
func shift(d Delta, texts ...*string) {
	n := len(texts)
	a, b := texts[d.J%n], texts[(d.J+1+d.J/n%(n-1))%n]
	if strings.HasSuffix(d.K, "exchange") {
		*a, *b = *b, *a
		return
	}
	at := 0
	if d.I%3 > 0 && len(*a) > 0 {
		at = d.I % len(*a)
	}
	if d.I%2 == 0 {
		*a, *b = (*a)[:at], (*a)[at:]+*b
	} else {
		*a, *b = (*a)[at:], *b+(*a)[:at]
	}
}

// with makes the model with one difference; false if there is none to make.
func (m *Model) with(d Delta) (*Model, bool) {
	n := m.clone()
	ids := sortedKeys(m.Items)
	keys := m.relKeys()
	text := func(old string) string {
		if d.How > 0 {
			return alike(old, d.How)
		}
		return d.Text
	}
	if d.K == "id" && d.How > 0 && len(ids) > 0 {
		d.Text = alike(ids[d.I%len(ids)], d.How)
	}
	item := func(f func(*MItem)) (*Model, bool) {
		if len(ids) == 0 {
			return nil, false
		}
		it := n.Items[ids[d.I%len(ids)]]
		f(&it)
		n.Items[it.Id] = it
		return n, true
	}
	rel := func(f func(*MRel)) (*Model, bool) {
		if len(keys) == 0 {
			return nil, false
		}
		k := keys[d.I%len(keys)]
		r := n.Rels[k]
		f(&r)
		delete(n.Rels, k)
		k = [2]string{r.From, r.To}
		if _, exists := n.Rels[k]; exists {
			return nil, false
		}
		n.Rels[k] = r
		return n, true
	}
	switch d.K {
	case "name":
		return item(func(it *MItem) { it.Name = text(it.Name) })
	case "mechanism":
		return item(func(it *MItem) { it.Mech = text(it.Mech) })
	case "expanded":
		return item(func(it *MItem) { it.Exp = text(it.Exp) })
	case "external":
		return item(func(it *MItem) { it.Ext = !it.Ext })
	case "type":
		return item(func(it *MItem) { it.Type = append([]string{""}, itemTypes...)[d.J%(len(itemTypes)+1)] })
	case "id":
		if len(ids) == 0 || d.Text == "" {
			return nil, false
		}
		old := ids[d.I%len(ids)]
		if _, exists := n.Items[d.Text]; exists {
			return nil, false
		}
		it := n.Items[old]
		it.Id = d.Text
		n.Items[d.Text] = it
		n.Parent[d.Text] = n.Parent[old]
		delete(n.Items, old)
		delete(n.Parent, old)
		for c, p := range n.Parent {
			if p == old {
				n.Parent[c] = d.Text
			}
		}
		for _, k := range keys {
			r := n.Rels[k]
			delete(n.Rels, k)
			if r.From == old {
				r.From = d.Text
			}
			if r.To == old {
				r.To = d.Text
			}
			n.Rels[[2]string{r.From, r.To}] = r
		}
		return n, true
	case "parent":
		if len(ids) == 0 {
			return nil, false
		}
		id := ids[d.I%len(ids)]
		if d.J%(len(ids)+1) == len(ids) {
			return n, n.free(id)
		}
		return n, n.nest(id, ids[d.J%(len(ids)+1)])
	case "swaplaces":
		if len(ids) < 2 {
			return nil, false
		}
		a, b := ids[d.I%len(ids)], ids[d.J%len(ids)]
		pa, pb := n.Parent[a], n.Parent[b]
		if n.under(pa, b) || n.under(pb, a) || pa == b || pb == a {
			return nil, false
		}
		n.Parent[a], n.Parent[b] = pb, pa
		return n, true
	case "swapfamilies": // the two items with the most components exchange one each
		tops := append([]string{}, ids...)
		slices.SortStableFunc(tops, func(x, y string) int { return len(n.children(y)) - len(n.children(x)) })
		if len(tops) < 2 {
			return nil, false
		}
		of, to := n.children(tops[0]), n.children(tops[1])
		if len(to) == 0 {
			return nil, false
		}
		a, b := of[d.I%len(of)], to[d.J%len(to)]
		if n.under(tops[1], a) || n.under(tops[0], b) || a == tops[1] || b == tops[0] {
			return nil, false
		}
		n.Parent[a], n.Parent[b] = tops[1], tops[0]
		return n, true
	case "add":
		if !n.itemCreate(d.Text, nil) {
			return nil, false
		}
		return n, true
	case "remove":
		if len(ids) == 0 {
			return nil, false
		}
		return n, n.itemDelete(ids[d.I%len(ids)])
	case "swapattrs":
		if len(ids) < 2 {
			return nil, false
		}
		a, b := n.Items[ids[d.I%len(ids)]], n.Items[ids[d.J%len(ids)]]
		a.Id, b.Id = b.Id, a.Id
		n.Items[a.Id], n.Items[b.Id] = a, b
		return n, true
	case "verb":
		return rel(func(r *MRel) { r.Verb = text(r.Verb) })
	case "rmechanism":
		return rel(func(r *MRel) { r.Mech = text(r.Mech) })
	case "rexpanded":
		return rel(func(r *MRel) { r.Exp = text(r.Exp) })
	case "async":
		return rel(func(r *MRel) { r.Async = !r.Async })
	case "radd":
		if len(ids) == 0 {
			return nil, false
		}
		return n, n.relCreate(ids[d.I%len(ids)], ids[d.J%len(ids)], nil)
	case "rremove":
		if len(keys) == 0 {
			return nil, false
		}
		delete(n.Rels, keys[d.I%len(keys)])
		return n, true
	case "rreverse":
		return rel(func(r *MRel) { r.From, r.To = r.To, r.From })
	case "rto":
		return rel(func(r *MRel) { r.To = ids[d.J%len(ids)] })
	case "rfrom":
		return rel(func(r *MRel) { r.From = ids[d.J%len(ids)] })
	case "rswap":
		if len(keys) < 2 {
			return nil, false
		}
		k, l := keys[d.I%len(keys)], keys[d.J%len(keys)]
		a, b := n.Rels[k], n.Rels[l]
		a.From, a.To, b.From, b.To = b.From, b.To, a.From, a.To
		n.Rels[l], n.Rels[k] = a, b
		return n, true
	case "shift", "exchange":
		return item(func(it *MItem) { shift(d, &it.Name, &it.Mech, &it.Exp) })
	case "rshift", "rexchange":
		return rel(func(r *MRel) { shift(d, &r.Verb, &r.Mech, &r.Exp) })
	case "wshift", "wexchange":
		shift(d, &n.Id, &n.Name, &n.Expanded)
		return n, true
	case "wversion":
		if d.J%2 == 0 {
			n.Version = d.I % 4
		} else {
			n.Version += 1 + d.I
		}
		return n, true
	case "wid":
		n.Id = text(n.Id)
		return n, true
	case "wname":
		n.Name = text(n.Name)
		return n, true
	case "wexpanded":
		n.Expanded = text(n.Expanded)
		return n, true
	}
	panic(harnessError{fmt.Errorf("no difference %q", d.K)})
}

func runC15(c equalCase, ctx *Ctx) error {
	m := modelOf("w", c.Ops)
	w := build("w", c.Ops)
	w1, w2 := rebuild(m, c.Q1), rebuild(m, c.Q2)
	for _, x := range []world.World{w1, w2} {
		if err := sameAs(m, x); err != nil {
			return violf("building the same world another way: %w", err)
		}
	}
	both := func(a, b world.World) (bool, error) {
		e1, e2 := world.WorldEqual(a, b), world.WorldEqual(b, a)
		if e1 != e2 {
			return false, violf("comparing worlds is not symmetric: %t and %t", e1, e2)
		}
		return e1, nil
	}
	for _, p := range [][2]world.World{{w, w}, {w, w1}, {w1, w2}} {
		eq, err := both(p[0], p[1])
		if err != nil {
			return err
		}
		if !eq {
			return violf("worlds with the same content compare unequal")
		}
	}
	t1, err := treeOf(m, c.Q1)
	if err != nil {
		return err
	}
	t2, err := treeOf(m, c.Q2)
	if err != nil {
		return err
	}
	if !world.TreeEqual(t1, t2) || !world.TreeEqual(t2, t1) || !world.TreeEqual(t1, t1) {
		return violf("trees with the same content compare unequal")
	}
	compared := 0
	for _, d := range c.D {
		n, ok := m.with(d)
		if !ok || diff(m, n) == "" {
			continue
		}
		x := rebuild(n, c.Q2)
		eq, err := both(w1, x)
		if err != nil {
			return violf("%+v: %w", d, err)
		}
		if eq {
			return violf("worlds that differ compare equal: %+v: %s", d, diff(m, n))
		}
		compared++
		ctx.Hit("difference in " + d.K)
		f1, f2 := m.subForest(""), n.subForest("")
		tx, err := treeOf(n, c.Q2)
		if err != nil {
			return err
		}
		same := sameForest(f1, f2) == nil
		if e1, e2 := world.TreeEqual(t1, tx), world.TreeEqual(tx, t1); e1 != same || e2 != same {
			return violf("%+v: trees compare %t and %t, should be %t", d, e1, e2, same)
		}
		for _, a := range sample(w1.ItemList(0), 12) {
			for _, b := range sample(x.ItemList(0), 12) {
				want := mitem(a) == mitem(b)
				if world.ItemEqual(a, b) != want || world.ItemEqual(b, a) != want {
					return violf("items %+v and %+v compare %t and %t", a, b, world.ItemEqual(a, b), world.ItemEqual(b, a))
				}
			}
		}
		for _, a := range sample(w1.RelList(0), 12) {
			for _, b := range sample(x.RelList(0), 12) {
				want := mrel(a) == mrel(b) && mitem(a.From) == mitem(b.From) && mitem(a.To) == mitem(b.To)
				if world.RelEqual(a, b) != want || world.RelEqual(b, a) != want {
					return violf("relationships %+v and %+v compare %t and %t", a, b, world.RelEqual(a, b), world.RelEqual(b, a))
				}
			}
		}
	}
	if compared > 0 && len(m.Rels) > 0 && m.depth() > 1 {
		ctx.NonTrivial()
	}
	return nil
}

func sample[T any](s []T, n int) []T {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// --- C19 ---

type damageCase struct {
	Ops  []Op    `json:"ops"`
	Q    uint64  `json:"q,omitempty"`
	How  string  `json:"how"` // cut, text, other, edit
	Cut  float64 `json:"cut,omitempty"`
	Text Any     `json:"text,omitempty"`
	E    []Edit  `json:"e,omitempty"`
	File bool    `json:"file,omitempty"`
}

// Edit is a change of a world text in its own terms.
type Edit struct {
	K string `json:"k"`
	I int    `json:"i"`
	J int    `json:"j"`
	S string `json:"s,omitempty"`
}

func genDamageCase(t *rapid.T) damageCase {
	c := damageCase{Ops: genOps(t, worldMix)}
	if chance(t, "spelling", 40) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	c.How = pick(t, "how", []string{"cut", "text", "edit", "edit", "other", "dangling"})
	switch c.How {
	case "dangling":
		c.E = []Edit{{"", uniform(t, "i", 1000), uniform(t, "j", 4), genId(t)}}
	case "cut":
		c.Cut = rapid.Float64Range(0, 0.9999).Draw(t, "cut")
	case "text":
		c.Text = Any(mutateText(t, build("w", c.Ops).String()))
	case "edit":
		for i := 1 + weighted(t, "edits", 60, 25, 15); i > 0; i-- {
			c.E = append(c.E, Edit{pick(t, "edit", []string{"id", "word", "drop", "double", "swap", "line", "moveline", "untree", "top"}), uniform(t, "i", 1000), uniform(t, "j", 1000), genId(t)})
		}
	default:
		g := &cmdGen{m: newModel("w"), mix: cmdMix{mutate: 60, query: 40}}
		g.ids = genIds(t, 1, 4)
		c.Text = Any(genNoise(t, g.ids, g.draw(t).line()))
	}
	c.File = chance(t, "file", 25)
	return c
}

// edit changes quoted texts, lines and subtrees of a world text.
func edit(s string, e Edit) string {
	// quotations
	var qs [][2]int
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				break
			}
			qs = append(qs, [2]int{i + 1, i + 1 + j})
			i += j + 1
		}
	}
	lines := strings.Split(s, "\n")
	switch e.K {
	case "id": // one text put in place of another: double items, relationships to elsewhere
		if len(qs) > 1 {
			a, b := qs[e.I%len(qs)], qs[e.J%len(qs)]
			return s[:a[0]] + s[b[0]:b[1]] + s[a[1]:]
		}
	case "word":
		if len(qs) > 0 {
			a := qs[e.I%len(qs)]
			return s[:a[0]] + e.S + s[a[1]:]
		}
	case "line": // a line left out
		i := e.I % len(lines)
		return strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "\n")
	case "double": // a line twice
		i := e.I % len(lines)
		return strings.Join(append(append(append([]string{}, lines[:i+1]...), lines[i]), lines[i+1:]...), "\n")
	case "moveline":
		i, j := e.I%len(lines), e.J%len(lines)
		ls := append([]string{}, lines...)
		ls[i], ls[j] = ls[j], ls[i]
		return strings.Join(ls, "\n")
	case "drop", "swap", "untree":
		var ts [][2]int
		for i := 0; i+5 <= len(s); i++ {
			if strings.HasPrefix(s[i:], "tree{") {
				if j := treeEnd(s, i); j > 0 {
					ts = append(ts, [2]int{i, j})
				}
			}
		}
		if len(ts) > 1 {
			a, b := ts[e.I%len(ts)], ts[e.J%len(ts)]
			switch {
			case e.K == "drop":
				return s[:a[0]] + s[a[1]:]
			case e.K == "untree": // one subtree in place of another, perhaps of itself or its own part
				return s[:a[0]] + s[b[0]:b[1]] + s[a[1]:]
			case a[1] <= b[0]:
				return s[:a[0]] + s[b[0]:b[1]] + s[a[1]:b[0]] + s[a[0]:a[1]] + s[b[1]:]
			}
		}
	case "top":
		return strings.Replace(s, "tree{nil::[", `tree{item "`+e.S+`"::[`, 1)
	}
	return s
}

// treeEnd finds the end of the tree that starts at i; quotations may hold brackets, not braces.
func treeEnd(s string, i int) int {
	depth := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '{':
			depth++
		case '}':
			depth--
			if depth == 0 {
				return i + 1
			}
		}
	}
	return -1
}

// wellFormed checks a world that was read from text that may be damaged.
func wellFormed(w world.World) error {
	m, err := observe(w)
	if err != nil {
		return err
	}
	for k, r := range m.Rels {
		if k != [2]string{r.From, r.To} {
			return fmt.Errorf("relationship %+v is stored as %q", r, k)
		}
	}
	if _, ok := m.Items[""]; ok {
		return fmt.Errorf("it has an item without id")
	}
	w2, err := world.FromString(w.String())
	if err != nil {
		return fmt.Errorf("its text %q is not readable: %v", clip(w.String()), err)
	}
	if err := sameAs(m, w2); err != nil {
		return fmt.Errorf("its text reads back differently: %v", err)
	}
	if !world.WorldEqual(w, w2) {
		return fmt.Errorf("the world read back does not compare equal")
	}
	return nil
}

func runC19(c damageCase, ctx *Ctx) error {
	m := modelOf("w", c.Ops)
	text := build("w", c.Ops).String()
	if c.Q != 0 {
		var node grammar.Node
		var items []string
		var rels [][2]string
		text = newSpeller(c.Q).world(m, &node, &items, &rels)
	}
	refuse := func(s, what string) error {
		if w, err := world.FromString(s); err == nil {
			return violf("%s is read as a world: %q gives %q", what, clip(s), clip(w.String()))
		}
		return nil
	}
	s := text
	switch c.How {
	case "cut":
		at := int(c.Cut * float64(len(text)))
		s = text[:at]
		if err := refuse(s, "a world cut off"); err != nil {
			return err
		}
		// The end, where most of it is there, and every place of a short one.
		from := len(text) - 24
		if len(text) < 400 {
			from = 0
		}
		for i := max(from, 0); i < len(text); i++ {
			if err := refuse(text[:i], "a world cut off"); err != nil {
				return err
			}
		}
		ctx.NonTrivial()
		ctx.Hit("cut off")
	case "dangling":
		// One relationship more, between items that are not both there.
		e := Edit{S: "gone"}
		if len(c.E) > 0 {
			e = c.E[0]
		}
		ids := append(sortedKeys(m.Items), e.S)
		from, to := e.S, ids[e.I%len(ids)]
		if e.J%2 == 0 {
			from, to = to, from
		}
		if _, there := m.Items[e.S]; there || e.S == "" {
			break
		}
		plain := build("w", c.Ops).String()
		head, ok := strings.CutSuffix(plain, "endworld$$")
		if !ok {
			break
		}
		line := newSpeller(c.Q).rel(MRel{From: from, To: to})
		s = head + line + "\nendworld$$"
		if at := strings.LastIndex(head, "\nrel "); e.J > 1 && at > 0 {
			s = head[:at] + "\n" + line + head[at:] + "endworld$$"
		}
		if err := refuse(s, "a world with a relationship to an item that is not there"); err != nil {
			return err
		}
		ctx.NonTrivial()
		ctx.Hit("dangling relationship")
	case "text":
		s = string(c.Text)
	case "edit":
		for _, e := range c.E {
			s = edit(s, e)
		}
	case "other":
		s = string(c.Text)
		var node grammar.Node
		var order []string
		sp := newSpeller(c.Q)
		others := []string{text + "\n$$$$\n200 ok ", sp.tree(m, "", &node, &order), "\n$$$$\n200 ok ", "200 ok", `500 error "x: y"`, "", "world", "$$world"}
		for _, id := range sample(sortedKeys(m.Items), 3) {
			others = append(others, sp.item(m.Items[id]), "item fetch "+sp.id(id))
		}
		for _, k := range m.relKeys() {
			others = append(others, sp.rel(m.Rels[k]), sp.rel(m.Rels[k])+"\n$$$$\n200 ok")
			break
		}
		for _, o := range others {
			if err := refuse(o, "other text"); err != nil {
				return err
			}
		}
		if _, v := refRead(s); v == accept {
			if err := refuse(s, "a command"); err != nil {
				return err
			}
		}
		ctx.NonTrivial()
	}
	w, err := world.FromString(s)
	if err == nil {
		if err := wellFormed(w); err != nil {
			return violf("%q is read as a broken world: %w", clip(s), err)
		}
		if s != text {
			ctx.NonTrivial()
			ctx.Hit("changed text read as a world")
		}
	} else {
		ctx.Hit("refused")
		if c.How == "edit" && s == text {
			return violf("the text of a world %q is not readable: %v", clip(s), err)
		}
	}
	if c.File {
		dir := ctx.Dir()
		defer os.RemoveAll(dir)
		if err := os.WriteFile(filepath.Join(dir, "w.world"), []byte(s), 0o644); err != nil {
			panic(harnessError{err})
		}
		p := persistence.NewFilePersistence()
		p.SetSourcePath(dir)
		w2, err2 := p.Load("w")
		if (err == nil) != (err2 == nil) {
			return violf("%q is read from text with error %v, and loaded with error %v", clip(s), err, err2)
		}
		if err2 == nil {
			if err := wellFormed(w2); err != nil {
				return violf("%q is loaded as a broken world: %w", clip(s), err)
			}
		}
		ctx.Hit("loaded from a file")
	}
	return nil
}

func init() {
	register(Prop{
		ID: "C10", Quick: 3000000, Thorough: 20000000,
		Rule:        "Either an abstract command rendered in one of its many spellings, whose reading must give exactly its parts; or a mutated command line or a sequence of words, on which the parser and a reference reader written from the documentation must agree. Non-trivial: ids that need quoting or begin with a reserved word, several attributes, or a changed text the reference reader decides.",
		Assumptions: []string{"lines the documentation leaves open (such as words run together) may be taken either way", "texts are drawn from the characters the grammar can quote"},
	}, genReadCase, runC10)
	register(Prop{
		ID: "C11", Quick: 300000, Thorough: 2000000,
		Rule: "A response or text whose object (items, relationships, ids, tree or world) is written from a model, by the harness in varied spelling or by the code itself; every part that is read is compared with the model. One case in two is cut off, has something appended, lacks one piece it cannot do without or has one twice, and must not be read as a response (or as that object). Non-trivial: several objects, nesting, or damage.",
	}, genRespCase, runC11)
	register(Prop{
		ID: "C14", Quick: 60000, Thorough: 400000,
		Rule: "A random world; every item, every relationship and a tree or subtree of it go through their text form (as the code writes it and as the harness does), and each text is offered to the readers of the other kinds. Further texts (commands, mutated and cut objects, noise) must be read as an item or relationship exactly if a reference reader says they are one. Non-trivial: attributes, a relationship and nesting.",
	}, genTextCase, runC14)
	register(Prop{
		ID: "C15", Quick: 90000, Thorough: 600000,
		Rule: "A random world rebuilt in two other orders, which must compare equal, and rebuilt with one difference out of 25 kinds, which must compare unequal both ways; items, relationships and trees of both are compared pairwise against their content. Non-trivial: a difference was made in a world with nesting and a relationship." + wildness,
	}, func(t *rapid.T) equalCase {
		c := equalCase{Ops: wild(t, genOps(t, worldMix)), Q1: rapid.Uint64Range(1, 1<<32).Draw(t, "q1"), Q2: rapid.Uint64Range(1, 1<<32).Draw(t, "q2")}
		for i := rapid.IntRange(1, 6).Draw(t, "deltas"); i > 0; i-- {
			d := Delta{K: pick(t, "delta", deltas), I: uniform(t, "i", 64), J: uniform(t, "j", 64)}
			if chance(t, "alike", 25) {
				d.How = 1 + uniform(t, "how", 11)
			}
			d.Text = genText(t)
			if d.K == "id" || d.K == "add" {
				d.Text = genId(t)
			}
			c.D = append(c.D, d)
		}
		return c
	}, runC15)
	register(Prop{
		ID: "C19", Quick: 70000, Thorough: 400000, Quiet: true,
		Rule: "The text of a random world cut off (short texts at every byte), changed at random, or edited in its own terms (ids exchanged, lines and subtrees dropped, doubled, moved into each other), and text of other kinds; also from a file. Reading must fail, or give a world that is consistent and survives its own text. Cut or other text must be refused. Non-trivial: a cut, text of another kind, or a changed text that was accepted.",
	}, genDamageCase, runC19)
}

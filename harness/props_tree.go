package main

// C22: trees on their own.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

// TreeStep is one change of a tree, made at the node At ("" for the top).
type TreeStep struct {
	K  string            `json:"k"` // add, nil, delete, set
	At string            `json:"at"`
	Id string            `json:"id"`
	P  map[string]string `json:"p,omitempty"`
}

type treeCase struct {
	Start []Op       `json:"start,omitempty"` // creates and nests that make the first tree
	How   string     `json:"how"`             // built, text, top (text of a tree with an item at its top)
	Q     uint64     `json:"q,omitempty"`
	Top   string     `json:"top,omitempty"`
	Steps []TreeStep `json:"steps"`
}

// treeModel is a hierarchy with or without an item at its top.
type treeModel struct{ forest }

func (f *treeModel) clone() *treeModel {
	n := &treeModel{forest{top: f.top, items: map[string]MItem{}, parent: map[string]string{}}}
	for k, v := range f.items {
		n.items[k] = v
	}
	for k, v := range f.parent {
		n.parent[k] = v
	}
	return n
}

func (f *treeModel) has(at, id string) bool {
	_, ok := f.items[id]
	for ; ok; id = f.parent[id] {
		if id == at {
			return true
		}
		if id == "" || id == f.top {
			return at == "" && f.top == ""
		}
	}
	return false
}

func (f *treeModel) children(id string) []string {
	out := []string{}
	for c, p := range f.parent {
		if p == id && c != f.top {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

func (f *treeModel) below(id string) []string {
	out := []string{}
	for _, c := range f.children(id) {
		out = append(out, c)
		out = append(out, f.below(c)...)
	}
	sort.Strings(out)
	return out
}

// apply changes the model and tells whether an error is due; skip if the step's outcome is left open.
func (f *treeModel) apply(s TreeStep) (ok, skip bool) {
	if s.At != "" {
		if _, exists := f.items[s.At]; !exists {
			return false, true
		}
	} else if f.top != "" {
		return false, true
	}
	switch s.K {
	case "nil":
		return false, false
	case "add":
		if s.Id == "" || s.Id == s.At {
			return true, s.Id == ""
		}
		if _, exists := f.items[s.Id]; !exists {
			f.items[s.Id] = setItem(MItem{Id: s.Id}, s.P)
			f.parent[s.Id] = s.At
			return true, false
		}
		if s.At != "" && f.has(s.Id, s.At) {
			return false, false
		}
		f.parent[s.Id] = s.At
		return true, false
	case "delete":
		if s.Id == f.top {
			return true, s.Id != ""
		}
		if !f.has(s.At, s.Id) {
			return true, false
		}
		up := f.parent[s.Id]
		for _, c := range f.children(s.Id) {
			f.parent[c] = up
		}
		delete(f.items, s.Id)
		delete(f.parent, s.Id)
		return true, false
	case "set":
		if f.has(s.At, s.Id) {
			f.items[s.Id] = setItem(MItem{Id: s.Id}, s.P)
		}
		return true, s.Id == ""
	}
	return true, true
}

func genTreeSteps(t *rapid.T, f *treeModel, ids []string, n int) []TreeStep {
	var out []TreeStep
	some := func(label string) string {
		have := sortedKeys(f.items)
		if len(have) == 0 || chance(t, "any", 15) {
			return pick(t, label, ids)
		}
		return pick(t, label, have)
	}
	for i := 0; i < n; i++ {
		s := TreeStep{}
		if f.top != "" || (len(f.items) > 0 && chance(t, "deep", 70)) {
			s.At = pick(t, "at", sortedKeys(f.items))
		}
		switch weighted(t, "k", 30, 30, 18, 10, 8, 4) {
		case 0:
			s.K, s.Id = "add", pick(t, "new", ids)
			s.P = genItemParams(t, 25)
		case 1: // move
			s.K, s.Id = "add", some("move")
		case 2:
			s.K, s.Id = "delete", some("gone")
		case 3:
			s.K, s.Id = "set", some("set")
			s.P = genItemParams(t, 40)
		case 4: // an ancestor
			s.K, s.Id = "add", s.At
			for p := s.At; p != "" && p != f.top; p = f.parent[p] {
				s.Id = f.parent[p]
				if chance(t, "enough", 40) {
					break
				}
			}
			if s.Id == "" {
				s.Id = s.At
			}
		default:
			s.K = "nil"
		}
		if _, skip := f.clone().apply(s); skip {
			continue
		}
		f.apply(s)
		out = append(out, s)
	}
	return out
}

func genTreeCase(t *rapid.T, ids []string) treeCase {
	c := treeCase{How: pick(t, "how", []string{"built", "text", "top"})}
	if chance(t, "spelling", 50) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	own := ids == nil
	big := own && chance(t, "big", 8)
	if big {
		ids = genIds(t, 12, 30)
	} else if own {
		ids = genIds(t, 3, 9)
	}
	if own && c.How == "built" {
		ids = wildIds(t, ids)
	}
	m := newModel("w")
	k := uniform(t, "start", len(ids)+1)
	for i := 0; i < k; i++ {
		o := Op{K: "create", A: ids[i], P: genItemParams(t, 20)}
		m.apply(o)
		c.Start = append(c.Start, o)
		if i > 0 && chance(t, "nested", 65) {
			o := Op{K: "nest", A: ids[i], B: ids[uniform(t, "under", i)]}
			m.apply(o)
			c.Start = append(c.Start, o)
		}
	}
	if len(m.Items) == 0 {
		c.How = "built"
	}
	if c.How == "top" {
		c.Top = pick(t, "top", sortedKeys(m.Items))
	}
	top := ""
	if c.How == "top" {
		top = c.Top
	}
	f := &treeModel{m.subForest(top)}
	n := size(t, "n", 1, 14, 60)
	if big {
		n = size(t, "n", 10, 50, 120)
	}
	c.Steps = genTreeSteps(t, f, ids, n)
	return c
}

// startTree makes the tree a case starts with, and its model.
func startTree(c treeCase) (world.Tree, *treeModel, error) {
	m := modelOf("w", c.Start)
	s := newSpeller(c.Q)
	if c.Top != "" {
		if _, ok := m.Items[c.Top]; !ok {
			c.Top, c.How = "", "built"
		}
	}
	switch c.How {
	case "text", "top":
		top := ""
		if c.How == "top" {
			top = c.Top
		}
		f := m.subForest(top)
		if len(f.items) == 0 {
			break
		}
		text := spellTree(s, m, top)
		t, _, err := world.TreeFromString(text)
		if err != nil {
			return nil, nil, fmt.Errorf("tree %q cannot be read: %v", clip(text), err)
		}
		return t, &treeModel{f}, nil
	}
	t, err := treeOf(m, c.Q)
	return t, &treeModel{m.subForest("")}, err
}

// node finds the node of an item by way of its ancestors.
func node(root world.Tree, f *treeModel, id string) (world.Tree, error) {
	if id == "" || id == f.top {
		return root, nil
	}
	path := []string{id}
	for p := f.parent[id]; p != "" && p != f.top; p = f.parent[p] {
		path = append([]string{p}, path...)
	}
	t := root
	for _, step := range path {
		found := false
		for _, c := range t.Components().ToSlice() {
			if c.Item().Id == step {
				t, found = c, true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("item %q is not among the components of its parent", step)
		}
	}
	return t, nil
}

// checkTree asks every node everything.
func checkTree(root world.Tree, f *treeModel, ids []string) error {
	got, err := walkTree(root)
	if err != nil {
		return err
	}
	if err := sameForest(f.forest, got); err != nil {
		return err
	}
	nodes := append([]string{}, sortedKeys(f.items)...)
	if f.top == "" {
		nodes = append(nodes, "")
	}
	ask := append([]string{""}, ids...)
	for _, at := range nodes {
		t, err := node(root, f, at)
		if err != nil {
			return err
		}
		where := func(format string, a ...any) error {
			return fmt.Errorf("at node %q: %s", at, fmt.Sprintf(format, a...))
		}
		if mitem(t.Item()) != f.items[at] {
			return where("the item is %+v, should be %+v", mitem(t.Item()), f.items[at])
		}
		if !sameNodeAs(t.Root(), root) {
			return where("the root is the node of %q", t.Root().Item().Id)
		}
		if at != f.top && at != "" {
			p, err := node(root, f, f.parent[at])
			if err != nil {
				return err
			}
			if !sameNodeAs(t.Parent(), p) {
				return where("the parent is the node of %q, should be %q", t.Parent().Item().Id, f.parent[at])
			}
		} else if !t.Parent().Empty() {
			return where("the top has a parent that is not empty")
		}
		if want := at == "" && len(f.children(at)) == 0; t.Empty() != want {
			return where("empty is %t", t.Empty())
		}
		var comps []string
		for _, c := range t.Components().ToSlice() {
			comps = append(comps, c.Item().Id)
		}
		sort.Strings(comps)
		if want := f.children(at); !equalStrings(comps, want) {
			return where("components are %q, should be %q", comps, want)
		}
		for _, id := range ask {
			in := id != "" && f.has(at, id)
			if t.Has(id, false) != in {
				return where("Has(%q) is %t", id, !in)
			}
			if strict := id != "" && id == at; t.Has(id, true) != strict {
				return where("Has(%q) strictly is %t", id, !strict)
			}
			found, ok := t.Find(id)
			if ok != in {
				return where("Find(%q) gives %t", id, ok)
			}
			if ok && mitem(found.Item()) != f.items[id] {
				return where("Find(%q) gives %+v", id, mitem(found.Item()))
			}
			if ok {
				n, err := node(root, f, id)
				if err != nil {
					return err
				}
				if !sameNodeAs(found, n) {
					return where("Find(%q) gives another node", id)
				}
			}
			desc := append([]string{}, t.GetDescendantIds(id)...)
			sort.Strings(desc)
			want := []string{}
			if in {
				want = f.below(id)
			}
			if !equalStrings(desc, want) {
				return where("descendants of %q are %q, should be %q", id, desc, want)
			}
		}
	}
	return nil
}

// sameNodeAs tells whether two trees are one node: the same item, and the same items and nesting below it.
func sameNodeAs(a, b world.Tree) bool {
	if a == b {
		return true
	}
	x, err1 := walkTree(a)
	y, err2 := walkTree(b)
	return err1 == nil && err2 == nil && sameForest(x, y) == nil
}

func mention22(c treeCase) []string {
	seen := map[string]bool{}
	for _, o := range c.Start {
		seen[o.A] = true
	}
	for _, s := range c.Steps {
		seen[s.Id], seen[s.At] = true, true
	}
	delete(seen, "")
	seen["missing"] = true
	out := sortedKeys(seen)
	if len(out) > 14 {
		out = out[:14]
	}
	return out
}

func realItemOf(id string, p map[string]string) *world.Item {
	it := realItem(setItem(MItem{Id: id}, p))
	return &it
}

// itemPool gives equal items by one pointer, so that several trees are given the same one.
type itemPool map[world.Item]*world.Item

func (p itemPool) give(it world.Item) *world.Item {
	if p == nil {
		return &it
	}
	if p[it] == nil {
		p[it] = &it
	}
	return p[it]
}

func (p itemPool) check() error {
	for want, it := range p {
		if *it != want {
			return fmt.Errorf("item %+v, which was added to a tree, changed to %+v", want, *it)
		}
	}
	return nil
}

func stepTree(root world.Tree, f *treeModel, s TreeStep, pool itemPool) error {
	before := f.clone()
	ok, skip := f.apply(s)
	if skip {
		*f = *before
		return nil
	}
	t, err := node(root, before, s.At)
	if err != nil {
		return err
	}
	switch s.K {
	case "nil":
		if t.AddOrMove(nil) == nil {
			return fmt.Errorf("adding no item reports no error")
		}
	case "add":
		it := *realItemOf(s.Id, s.P)
		if old, exists := before.items[s.Id]; exists {
			it = realItem(old)
		}
		err := t.AddOrMove(pool.give(it))
		if ok && err != nil {
			return fmt.Errorf("adding %q at %q fails: %v", s.Id, s.At, err)
		}
		if !ok && err == nil {
			return fmt.Errorf("adding %q below its own component %q reports no error", s.Id, s.At)
		}
	case "delete":
		t.Delete(s.Id)
	case "set":
		t.SetItem(*realItemOf(s.Id, s.P))
	}
	return nil
}

func runC22(c treeCase, ctx *Ctx) error {
	root, f, err := startTree(c)
	if err != nil {
		return err
	}
	ids := mention22(c)
	if err := checkTree(root, f, ids); err != nil {
		return violf("at the start: %w", err)
	}
	moved, deleted := false, false
	for i, s := range c.Steps {
		before := f.clone()
		if err := stepTree(root, f, s, nil); err != nil {
			return violf("step %d (%s %q at %q): %w", i+1, s.K, s.Id, s.At, err)
		}
		ctx.Hit(s.K)
		if _, had := before.items[s.Id]; had && s.K == "add" && before.parent[s.Id] != f.parent[s.Id] {
			ctx.Hit("moved")
			if len(f.children(s.Id)) > 0 {
				moved = true
				ctx.Hit("moved with components")
			}
		}
		if _, has := f.items[s.Id]; s.K == "delete" && !has {
			if len(before.children(s.Id)) > 0 && before.has(s.At, s.Id) {
				deleted = true
				ctx.Hit("deleted with components")
			}
		}
		if len(f.items) > 12 && i%5 != 0 && i != len(c.Steps)-1 {
			continue
		}
		if err := checkTree(root, f, ids); err != nil {
			return violf("after step %d (%s %q at %q): %w", i+1, s.K, s.Id, s.At, err)
		}
	}
	if moved || deleted {
		ctx.NonTrivial()
	}
	for _, it := range f.items {
		if !quotableItem(it) {
			ctx.Hit("ids beyond the syntax")
			return nil // it has no text
		}
	}
	// The text says the same hierarchy.
	again, _, err := world.TreeFromString(root.String())
	if err != nil {
		return violf("the text of the tree cannot be read: %v", err)
	}
	got, err := walkTree(again)
	if err != nil {
		return err
	}
	if err := sameForest(f.forest, got); err != nil {
		return violf("the text of the tree says something else: %w", err)
	}
	if len(f.items) < 25 {
		if s := root.String(); strings.Count(s, "tree{") != len(f.items)+bool2int(f.top == "") {
			return violf("the text of a tree of %d items has %s nodes", len(f.items), strconv.Itoa(strings.Count(s, "tree{")))
		}
	}
	return nil
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(Prop{ID: "C22", Quick: 150000, Thorough: 900000,
		Rule:        "trees of up to 30 items, built, read from text, or with an item at their top, and up to 50 changes made from any node: adding new items, moving items with what is in them, deleting, setting, adding an ancestor or no item; after each change every node is asked for item, parent, root, components, membership, lookup, descendants and emptiness, for every id; non-trivial when an item with components moves or is deleted" + wildness,
		Assumptions: []string{"deleting the item at the very top, adding an item with an empty id and changing the empty tree handed out as the parent of the top are left open", "an item that is moved keeps its data"}},
		func(t *rapid.T) treeCase { return genTreeCase(t, nil) }, runC22)
}

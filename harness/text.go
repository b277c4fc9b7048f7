package main

// Text forms written by the harness itself, and trees of the code under test read through their interface.

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

func newSpeller(q uint64) *speller {
	s := &speller{}
	if q != 0 {
		s.r = rand.New(rand.NewPCG(q, 11))
	}
	return s
}

func (s *speller) shuffle(n int, swap func(i, j int)) {
	if s.r != nil {
		s.r.Shuffle(n, swap)
	}
}

func (s *speller) attrs(b *strings.Builder, attrs [][2]string) {
	s.shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	for _, a := range attrs {
		k, v := a[0], a[1]
		switch k {
		case "type":
			if v == "" {
				continue
			}
		case "external", "async":
			if v == "false" && !s.yes(20) {
				continue
			}
		default:
			if v == "" {
				if s.yes(10) {
					b.WriteString(s.gap() + k + `=""`)
				}
				continue
			}
			v = s.value(v)
		}
		b.WriteString(s.gap() + k + "=" + v)
	}
}

func (s *speller) item(it MItem) string {
	var b strings.Builder
	b.WriteString("item " + s.id(it.Id))
	s.attrs(&b, [][2]string{{"type", it.Type}, {"name", it.Name}, {"mechanism", it.Mech}, {"expanded", it.Exp}, {"external", strconv.FormatBool(it.Ext)}})
	return b.String()
}

func (s *speller) rel(r MRel) string {
	var b strings.Builder
	b.WriteString("rel " + s.id(r.From) + " " + s.id(r.To))
	s.attrs(&b, [][2]string{{"verb", r.Verb}, {"mechanism", r.Mech}, {"async", strconv.FormatBool(r.Async)}, {"expanded", r.Exp}})
	return b.String()
}

// tree writes the tree under id ("" for the top) and tells the nodes in the order written.
func (s *speller) tree(m *Model, id string, node *grammar.Node, order *[]string) string {
	var b strings.Builder
	b.WriteString("tree{")
	node.Id = "nil"
	if id == "" {
		b.WriteString("nil")
	} else {
		node.Id = id
		*order = append(*order, id)
		b.WriteString(s.item(m.Items[id]))
	}
	b.WriteString("::[")
	kids := m.children(id)
	s.shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	node.Children = make([]grammar.Node, len(kids))
	for i, k := range kids {
		if i > 0 {
			b.WriteString(s.gap())
		}
		b.WriteString(s.tree(m, k, &node.Children[i], order))
	}
	b.WriteString("]}")
	return b.String()
}

// world writes the whole world and tells what is in it in the order written.
func (s *speller) world(m *Model, node *grammar.Node, items *[]string, rels *[][2]string) string {
	info := func(v string) string { return `"` + v + `"` }
	if s.yes(30) {
		info = func(v string) string { return s.value(v) }
	}
	var b strings.Builder
	fmt.Fprintf(&b, "$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n", m.Version, info(m.Id), info(m.Name), info(m.Expanded))
	b.WriteString(s.tree(m, "", node, items))
	keys := m.relKeys()
	s.shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		b.WriteString("\n" + s.rel(m.Rels[k]))
	}
	*rels = keys
	b.WriteString("\nendworld$$")
	return b.String()
}

// sameNode compares trees of ids; the order of components is the one written.
func sameNode(a, b grammar.Node) bool {
	if a.Id != b.Id || len(a.Children) != len(b.Children) {
		return false
	}
	for i := range a.Children {
		if !sameNode(a.Children[i], b.Children[i]) {
			return false
		}
	}
	return true
}

// sameAttributes compares what was read from a line with the command it says.
func sameAttributes(c Cmd, in grammar.InputAttributes) error {
	verb := map[string]string{"cof": "create-or-fetch", "cos": "create-or-set", "components": "list"}[c.V]
	if verb == "" {
		verb = c.V
	}
	if in.ResourceType != c.R || in.Verb != verb {
		return fmt.Errorf("read as %q of %q, it says %q of %q", in.Verb, in.ResourceType, verb, c.R)
	}
	var second []string
	switch {
	case c.V == "nest" || c.V == "free":
		if !equalStrings(in.ResourceIds, c.L) {
			return fmt.Errorf("ids read as %q, it says %q", in.ResourceIds, c.L)
		}
		if c.V == "nest" {
			second = []string{c.B}
		}
	default:
		if in.ResourceId != c.A {
			return fmt.Errorf("id read as %q, it says %q", in.ResourceId, c.A)
		}
		if c.V == "in?" || (c.R == "rel" && c.V != "list" && c.V != "to?" && c.V != "from?") {
			second = []string{c.B}
		}
	}
	if !equalStrings(in.SecondaryIds, second) {
		return fmt.Errorf("second ids read as %q, it says %q", in.SecondaryIds, second)
	}
	want := c.params()
	got := map[string]string{}
	for k, v := range in.Params {
		got[k] = v
	}
	if c.V == "list" {
		l, has := got["limit"]
		delete(got, "limit")
		n, err := strconv.Atoi(l)
		if c.H != "" {
			if l != c.H {
				return fmt.Errorf("limit read as %q (%t), it says %s", l, has, c.H)
			}
		} else if has != (c.N >= 0) || (has && (err != nil || n != c.N)) {
			return fmt.Errorf("limit read as %q (%t), it says %d", l, has, c.N)
		}
	}
	if len(want) != len(got) {
		return fmt.Errorf("attributes read as %q, it says %q", got, want)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Errorf("attribute %q read as %q (%t), it says %q", k, g, ok, v)
		}
	}
	if !equalStrings(in.Flags, c.F) {
		return fmt.Errorf("flags read as %q, it says %q", in.Flags, c.F)
	}
	return nil
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// forest is a tree as seen through its interface: the top is "" if it has no item.
type forest struct {
	top    string
	items  map[string]MItem
	parent map[string]string
}

func walkTree(t world.Tree) (forest, error) {
	f := forest{items: map[string]MItem{}, parent: map[string]string{}}
	f.top = t.Item().Id
	var walk func(t world.Tree, parent string, top bool, depth int) error
	walk = func(t world.Tree, parent string, top bool, depth int) error {
		id := t.Item().Id
		if depth > 5000 {
			return fmt.Errorf("the tree does not end below %q", id)
		}
		if id == "" && !top {
			return fmt.Errorf("a node below the top has no item")
		}
		if id != "" {
			if _, dup := f.items[id]; dup {
				return fmt.Errorf("item %q appears twice in the tree", id)
			}
			f.items[id] = mitem(t.Item())
			f.parent[id] = parent
		}
		for _, c := range t.Components().ToSlice() {
			if err := walk(c, id, false, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	err := walk(t, "", true, 0)
	return f, err
}

func sameForest(want, got forest) error {
	if want.top != got.top {
		return fmt.Errorf("the top is %q, should be %q", got.top, want.top)
	}
	a := &Model{Items: want.items, Parent: want.parent}
	b := &Model{Items: got.items, Parent: got.parent}
	if d := diff(a, b); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// subForest is the part of a model at and under an item, or all of it.
func (m *Model) subForest(id string) forest {
	f := forest{top: id, items: map[string]MItem{}, parent: map[string]string{}}
	for x, it := range m.Items {
		if id == "" || x == id || m.under(x, id) {
			f.items[x] = it
			f.parent[x] = m.Parent[x]
		}
	}
	if id != "" {
		f.parent[id] = ""
	}
	return f
}

func realItem(it MItem) world.Item {
	return world.Item{Id: it.Id, Name: it.Name, Mechanism: it.Mech, Expanded: it.Exp, Type: world.ItemTypeFromString(it.Type), External: it.Ext}
}

// treeOf builds a tree with the items and nesting of a model, in an order of its own.
func treeOf(m *Model, q uint64) (world.Tree, error) {
	s := newSpeller(q)
	root, _, err := world.TreeFromString("")
	if err != nil {
		return nil, err
	}
	var add func(t world.Tree, id string) error
	add = func(t world.Tree, id string) error {
		kids := m.children(id)
		s.shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
		for _, k := range kids {
			it := realItem(m.Items[k])
			if err := t.AddOrMove(&it); err != nil {
				return err
			}
		}
		s.shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
		for _, k := range kids {
			c, ok := t.Find(k)
			if !ok {
				return fmt.Errorf("item %q was added but is not found", k)
			}
			if err := add(c, k); err != nil {
				return err
			}
		}
		return nil
	}
	return root, add(root, "")
}

// rebuild makes a world with the content of a model, in an order of its own.
func rebuild(m *Model, q uint64) world.World {
	s := newSpeller(q)
	w := world.CreateWorld("x")
	ids := sortedKeys(m.Items)
	s.shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	full := func(it MItem) map[string]string {
		p := map[string]string{"name": it.Name, "mechanism": it.Mech, "expanded": it.Exp, "external": strconv.FormatBool(it.Ext)}
		if it.Type != "" {
			p["type"] = it.Type
		}
		return p
	}
	for _, id := range ids {
		if s.yes(50) {
			do(w, Op{K: "create", A: id})
			do(w, Op{K: "set", A: id, P: full(m.Items[id])})
		} else {
			do(w, Op{K: "create", A: id, P: full(m.Items[id])})
		}
	}
	s.shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for _, id := range ids {
		if p := m.Parent[id]; p != "" {
			do(w, Op{K: "nest", A: id, B: p})
		}
	}
	keys := m.relKeys()
	s.shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		r := m.Rels[k]
		do(w, Op{K: "rcreate", A: k[0], B: k[1], P: map[string]string{"verb": r.Verb, "mechanism": r.Mech, "expanded": r.Exp, "async": strconv.FormatBool(r.Async)}})
	}
	w.SetVersion(m.Version)
	w.SetId(m.Id)
	w.SetName(m.Name)
	w.SetExpanded(m.Expanded)
	return w
}

// spellTree writes the tree under id, or of everything for "".
func spellTree(s *speller, m *Model, id string) string {
	var n grammar.Node
	var order []string
	return s.tree(m, id, &n, &order)
}

var (
	headRE   = regexp.MustCompile(`^\$\$world\s+(version=([0-9]+))\s+(id=("[^"]*"|[a-zA-Z0-9_-]+))\s+(name=(?:"[^"]*"|[a-zA-Z0-9_-]*))\s+(expanded=(?:"[^"]*"|[a-zA-Z0-9_-]*))\s`)
	nodeRE   = regexp.MustCompile(`(tree)\{(?:(nil)|(item)\s+("[^"]*"|[a-zA-Z0-9_-]+))`)
	statusRE = regexp.MustCompile(`\n\$\$\$\$\n([0-9]+)\s+(ok|error)`)
	wrelRE   = regexp.MustCompile(`\n(rel) `)
)

// lacking leaves out one piece of the text of a world, tree, response or object that it cannot do without, or
// gives one twice that may be there only once; what tells, from 0 to 1, which. Not every text has such a piece.
func lacking(text string, what float64, twice bool) (string, string) {
	var ps [][2]int
	quoted := make([]bool, len(text)+1)
	in := false
	for i := 0; i < len(text); i++ {
		if text[i] == '"' {
			if !twice {
				ps = append(ps, [2]int{i, i + 1})
			}
			in = !in
			quoted[i] = true
			continue
		}
		quoted[i] = in
		if in {
			continue
		}
		switch text[i] {
		case '=', '{', '}', '[', ']':
			ps = append(ps, [2]int{i, i + 1})
		case ':', '$':
			if i+1 < len(text) && text[i+1] == text[i] && (i == 0 || text[i-1] != text[i] || text[i] == '$') {
				ps = append(ps, [2]int{i, i + 2})
			}
		}
	}
	re := func(r *regexp.Regexp, groups ...int) {
		for _, m := range r.FindAllStringSubmatchIndex(text, -1) {
			for _, g := range groups {
				if m[2*g] >= 0 && !quoted[m[0]] {
					ps = append(ps, [2]int{m[2*g], m[2*g+1]})
				}
			}
		}
	}
	if !twice {
		re(headRE, 1, 2, 3, 4, 5, 6)
		re(headRE, 1, 3, 5, 6) // rather often
		re(nodeRE, 1, 2, 3, 4)
		re(statusRE, 1, 2)
		if strings.HasPrefix(text, "$$world") {
			re(wrelRE, 1)
			ps = append(ps, [2]int{2, 7})
			for i := len(text) - 10; i > 0; i-- {
				if strings.HasPrefix(text[i:], "endworld$$") && !quoted[i] {
					ps = append(ps, [2]int{i, i + 8})
					break
				}
			}
		}
	}
	// Without one quote, what was quoted after it no longer is. A world or tree that is complete then, with
	// more text after it, may be read.
	for _, end := range []string{"endworld", "]}"} {
		for i := strings.Index(text, end); i >= 0 && i < len(text); i++ {
			if strings.HasPrefix(text[i:], end) && quoted[i] {
				ps = slices.DeleteFunc(ps, func(p [2]int) bool { return text[p[0]:p[1]] == `"` })
				break
			}
		}
	}
	if len(ps) == 0 {
		return "", ""
	}
	p := ps[int(what*float64(len(ps)))%len(ps)]
	piece := text[p[0]:p[1]]
	if twice {
		return text[:p[1]] + piece + text[p[1]:], piece
	}
	return text[:p[0]] + text[p[1]:], piece
}

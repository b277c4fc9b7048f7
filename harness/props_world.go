package main

// Properties of a world driven through its API: C01, C04, C05, C06, C07, C18.

import (
	"fmt"

	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

type opsCase struct {
	Ops []Op `json:"ops"`
}

// parts of a model to compare
const (
	partInfo = 1 << iota
	partItems
	partNesting
	partRels
	partAll = partInfo | partItems | partNesting | partRels
)

// only reduces a model to some of its parts.
func (m *Model) only(parts int) *Model {
	n := m.clone()
	if parts&partInfo == 0 {
		n.Version, n.Id, n.Name, n.Expanded = 0, "", "", ""
	}
	if parts&partItems == 0 {
		for id := range n.Items {
			n.Items[id] = MItem{Id: id}
		}
	}
	if parts&partNesting == 0 {
		n.Parent = map[string]string{}
	}
	if parts&partRels == 0 {
		n.Rels = map[[2]string]MRel{}
	}
	return n
}

func sameParts(want *Model, w world.World, parts int) error {
	got, err := observe(w)
	if err != nil {
		return err
	}
	if d := diff(want.only(parts), got.only(parts)); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// results compares what an operation itself returned with what it should: the item or relationship as it is
// now, and no error exactly if the model accepts the operation.
func results(o Op, before, after *Model, ok bool, w world.World) error {
	err := w.Err()
	if ok && err != nil {
		return violf("%+v reports error %v, but there is nothing wrong with it", o, err)
	}
	if !ok && err == nil {
		return violf("%+v reports no error", o)
	}
	switch o.K {
	case "create", "set", "nest", "free":
		it, err2 := w.(world.WorldWithItem).Item()
		if (err2 == nil) != ok {
			return violf("%+v: error with the item is %v, should be an error: %t", o, err2, !ok)
		}
		switch {
		case ok && mitem(it) != after.Items[o.A]:
			return violf("%+v returns %+v, the item is %+v", o, mitem(it), after.Items[o.A])
		case !ok && it.Id != "" && it.Id != o.A:
			return violf("%+v is refused but returns item %+v of an earlier operation", o, mitem(it))
		case !ok && o.K == "create" && o.A != "" && mitem(it) != (MItem{}):
			if old, exists := before.Items[o.A]; !exists || mitem(it) != old {
				return violf("%+v is refused but returns %+v, stored is %+v", o, mitem(it), old)
			}
		}
		if rw, is := w.(world.WorldWithRel); is {
			if r, _ := rw.Rel(); mrel(r) != (MRel{}) {
				return violf("%+v leaves relationship %+v of an earlier operation behind", o, mrel(r))
			}
		}
	case "rcreate", "rset":
		r, err2 := w.(world.WorldWithRel).Rel()
		if (err2 == nil) != ok {
			return violf("%+v: error with the relationship is %v, should be an error: %t", o, err2, !ok)
		}
		k := [2]string{o.A, o.B}
		switch {
		case ok && (mrel(r) != after.Rels[k] || mitem(r.From) != after.Items[o.A] || mitem(r.To) != after.Items[o.B]):
			return violf("%+v returns %+v, the relationship is %+v", o, r, after.Rels[k])
		case !ok && mrel(r) != (MRel{}):
			if old, exists := before.Rels[k]; !exists || mrel(r) != old {
				return violf("%+v is refused but returns %+v, stored is %+v", o, mrel(r), old)
			}
		}
		if iw, is := w.(world.WorldWithItem); is {
			if it, _ := iw.Item(); mitem(it) != (MItem{}) {
				return violf("%+v leaves item %+v of an earlier operation behind", o, mitem(it))
			}
		}
	case "delete", "rdelete":
		if iw, is := w.(world.WorldWithItem); is {
			if it, _ := iw.Item(); mitem(it) != (MItem{}) {
				return violf("%+v leaves item %+v of an earlier operation behind", o, mitem(it))
			}
		}
		if rw, is := w.(world.WorldWithRel); is {
			if r, _ := rw.Rel(); mrel(r) != (MRel{}) {
				return violf("%+v leaves relationship %+v of an earlier operation behind", o, mrel(r))
			}
		}
	}
	return nil
}

func short(o Op) string { return fmt.Sprintf("%s %q %q", o.K, o.A, o.B) }

// history runs the operations on a real world and the model together.
func history(ops []Op, each func(i int, o Op, before, after *Model, ok bool, w world.World) error) (*Model, world.World, error) {
	w := world.CreateWorld("w")
	m := newModel("w")
	for i, o := range ops {
		before := m
		m = m.clone()
		ok := m.apply(o)
		got := do(w, o)
		if err := each(i, o, before, m, ok, got); err != nil {
			return m, w, violf("operation %d (%s): %w", i+1, short(o), err)
		}
	}
	return m, w, nil
}

// look tells whether to look at the whole world after operation i; big worlds are looked at less often.
func look(m *Model, i, n int) bool {
	return len(m.Items) <= 12 || i%max(9, len(m.Items)/2) == 0 || i == n-1
}

func limits(n int) []int {
	out := []int{0, 1, 2, n - 1, n, n + 1}
	ok := out[:0]
	for _, l := range out {
		if l >= 0 {
			ok = append(ok, l)
		}
	}
	return ok
}

// what many histories have in common
const (
	reading  = " In half of the cases the world is also read in all ways now and then between the operations."
	wildness = " In a fifth of the cases some ids and texts are ones the syntax cannot write (quotes, line ends, other scripts)."
)

func init() {
	register(Prop{
		ID: "C01", Quick: 100000, Thorough: 600000,
		Rule:        "A history of world operations (API calls or command lines) over ids and texts drawn from the whole quoted character set, with words and punctuation of the syntax itself favoured; non-trivial when the resulting world has a nested item, a relationship and an attribute." + reading,
		Assumptions: []string{"texts are drawn from the characters the grammar can quote; versions are not negative"},
	}, func(t *rapid.T) c01 {
		c := c01{Name: genText(t), Cmds: chance(t, "cmds", 20)}
		mx := evenMix
		mx.info = 3
		c.Ops = genOps(t, mx)
		return c
	}, runC01)

	hier := mix{create: 14, set: 3, del: 12, nest: 45, free: 10, rcreate: 5, rdel: 1, bad: 8}
	register(Prop{
		ID: "C04", Quick: 80000, Thorough: 500000,
		Rule: "A history of item creations, deletions, nestings and freeings with some relationships, followed by a model with one parent per item; the whole hierarchy is compared after the operations (after every ninth for large worlds). Non-trivial when at least one move or deletion meets an item with components." + reading + wildness,
	}, func(t *rapid.T) opsCase { return opsCase{wild(t, genOps(t, hier))} }, runC04)

	items := mix{create: 40, set: 30, del: 12, nest: 8, free: 2, rcreate: 6, bad: 8}
	register(Prop{
		ID: "C05", Quick: 80000, Thorough: 500000,
		Rule: "A history of creating (also existing ids with the same or other attributes), setting, deleting and listing items, compared with a keyed store: what each call returns, and all items afterwards. Non-trivial when an existing item is set or created again." + reading + wildness,
	}, func(t *rapid.T) opsCase {
		ops := genOps(t, items)
		for i := range ops {
			if ops[i].K == "set" && chance(t, "notype", 8) {
				if ops[i].P == nil {
					ops[i].P = map[string]string{}
				}
				ops[i].P["type"] = ""
			}
		}
		return opsCase{repeatCreates(t, wild(t, ops), "create")}
	}, runC05)

	rels := mix{create: 12, set: 12, del: 8, nest: 6, free: 1, rcreate: 35, rset: 16, rdel: 8, bad: 8}
	register(Prop{
		ID: "C06", Quick: 80000, Thorough: 500000,
		Rule: "A history of creating, setting and deleting relationships while their items are set, moved and deleted, compared with a store keyed by ordered pair; both ends of every relationship must show the item as stored. Non-trivial when a relationship outlives a change of one of its items or goes with it." + reading + wildness,
	}, func(t *rapid.T) opsCase { return opsCase{repeatCreates(t, wild(t, genOps(t, rels)), "rcreate")} }, runC06)

	queries := mix{create: 15, set: 4, del: 6, nest: 35, free: 4, rcreate: 40, rset: 3, rdel: 4, bad: 2}
	register(Prop{
		ID: "C07", Quick: 120000, Thorough: 800000,
		Rule: "A world with nesting and relationships made by a random history; then every strict and non-strict query over its items (sampled for large worlds and with ids that do not exist), compared with the definition over the model. Non-trivial when some non-strict query finds more than its strict one." + reading + wildness,
	}, func(t *rapid.T) opsCase { return opsCase{wild(t, genOps(t, queries))} }, runC07)

	refusals := mix{create: 16, set: 8, del: 7, nest: 25, free: 6, rcreate: 16, rset: 6, rdel: 4, bad: 45}
	register(Prop{
		ID: "C18", Quick: 100000, Thorough: 600000,
		Rule: "A history in which about half of the operations are aimed at being refused (empty and missing ids, unknown types, conflicting attributes, cycles). Every operation's error and returned object is compared with the model, and the world must be unchanged after a refusal. Non-trivial when something was refused." + reading + wildness,
	}, func(t *rapid.T) opsCase { return opsCase{repeatCreates(t, wild(t, genOps(t, refusals)), "create")} }, runC18)
}

// repeatCreates adds creations of what exists already, with the same, fewer or other attributes.
func repeatCreates(t *rapid.T, ops []Op, kind string) []Op {
	var out []Op
	var seen []Op
	for _, o := range ops {
		out = append(out, o)
		if o.K == kind {
			seen = append(seen, o)
		}
		if len(seen) > 0 && chance(t, "again", 12) {
			p := pick(t, "which", seen)
			q := Op{K: kind, A: p.A, B: p.B, P: map[string]string{}}
			for k, v := range p.P {
				q.P[k] = v
			}
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 1:
				for k := range q.P {
					if len(k)%2 == 0 {
						delete(q.P, k)
					}
				}
			case 2:
				k := pick(t, "other", []string{"mechanism", "expanded"})
				if v := q.P[k]; v != "" && chance(t, "alike", 50) {
					q.P[k] = genAlike(t, v)
				} else {
					q.P[k] = genText(t)
				}
			}
			out = append(out, q)
		}
	}
	return out
}

type c01 struct {
	Name string `json:"name"`
	Cmds bool   `json:"cmds,omitempty"`
	Ops  []Op   `json:"ops"`
}

func runC01(c c01, ctx *Ctx) error {
	var w world.World
	if c.Cmds {
		w = world.CreateWorld(c.Name)
		if err := viaCommands(w, c.Ops); err != nil {
			return err
		}
		ctx.Hit("built by commands")
	} else {
		w = build(c.Name, c.Ops)
		ctx.Hit("built by API")
	}
	first := ""
	if len(c.Ops)%2 == 0 { // written right after the last operation, or after looking at everything
		first = w.String()
	}
	m, err := observe(w)
	if err != nil {
		return violf("before writing: %w", err)
	}
	attrs := false
	for _, it := range m.Items {
		attrs = attrs || it != MItem{Id: it.Id}
	}
	if attrs && len(m.Rels) > 0 && m.depth() > 1 {
		ctx.NonTrivial()
	}
	text := first
	if text == "" {
		text = w.String()
	}
	if err := sameAs(m, w); err != nil {
		return violf("writing changed the world: %w", err)
	}
	w2, err := world.FromString(text)
	if err != nil {
		return violf("the text of the world is not readable: %v\n%s", err, clip(text))
	}
	if err := sameAs(m, w2); err != nil {
		return violf("read back: %w\n%s", err, clip(text))
	}
	if !world.WorldEqual(w, w2) || !world.WorldEqual(w2, w) {
		return violf("the world read back does not compare equal")
	}
	w3, err := world.FromString(w2.String())
	if err != nil {
		return violf("the text of the reloaded world is not readable: %v", err)
	}
	if err := sameAs(m, w3); err != nil {
		return violf("read back twice: %w", err)
	}
	return nil
}

func runC04(c opsCase, ctx *Ctx) error {
	m, w, err := history(c.Ops, func(i int, o Op, before, after *Model, ok bool, w world.World) error {
		if o.K == "nest" || o.K == "free" || o.K == "delete" {
			if len(before.children(o.A)) > 0 {
				ctx.NonTrivial()
				ctx.Hit(o.K + " with components")
			}
		}
		if o.K == "nest" && !ok {
			ctx.Hit("refused nest")
		}
		if !look(after, i, len(c.Ops)) {
			return nil
		}
		return sameParts(after, w, partNesting)
	})
	if err != nil {
		return err
	}
	ids := sortedKeys(m.Items)
	if len(ids) > 14 {
		ids = ids[:14]
	}
	for _, a := range append(ids, "missing", "") {
		for _, b := range append(ids, "missing", "") {
			for _, strict := range []bool{false, true} {
				if got, want := w.In(a, b, strict), m.in(a, b, strict); got != want {
					return violf("In(%q, %q, %t) is %t, should be %t", a, b, strict, got, want)
				}
			}
		}
	}
	if p, ok := w.Parent("missing"); ok || p != "" {
		return violf("a missing item has a parent: %q %t", p, ok)
	}
	if cs, ok := w.Components("missing"); ok || len(cs) > 0 {
		return violf("a missing item has components: %q %t", cs, ok)
	}
	return nil
}

func checkItemList(w world.World, m *Model, limit int) error {
	got := w.ItemList(limit)
	want := len(m.Items)
	if limit > 0 && limit < want {
		want = limit
	}
	if len(got) != want {
		return violf("ItemList(%d) lists %d of %d items", limit, len(got), len(m.Items))
	}
	seen := map[string]bool{}
	for _, it := range got {
		if w, ok := m.Items[it.Id]; !ok || w != mitem(it) || seen[it.Id] {
			return violf("ItemList(%d) lists %+v, stored is %+v (seen before: %t)", limit, mitem(it), m.Items[it.Id], seen[it.Id])
		}
		seen[it.Id] = true
	}
	return nil
}

func runC05(c opsCase, ctx *Ctx) error {
	for _, name := range itemTypes {
		if got := world.StringFromItemType(world.ItemTypeFromString(name)); got != name {
			return violf("item type %q is reported as %q", name, got)
		}
	}
	_, _, err := history(c.Ops, func(i int, o Op, before, after *Model, ok bool, w world.World) error {
		if _, exists := before.Items[o.A]; exists && (o.K == "create" || o.K == "set") {
			ctx.NonTrivial()
			ctx.Hit(fmt.Sprintf("%s existing, refused %t", o.K, !ok))
		}
		switch o.K {
		case "create", "set", "delete":
			if err := results(o, before, after, ok, w); err != nil {
				return err
			}
		}
		if got, has := w.ItemFetch(o.A); o.K != "rcreate" {
			if want, exists := after.Items[o.A]; has != exists || (has && mitem(got) != want) {
				return violf("fetching %q gives %+v (%t), stored is %+v (%t)", o.A, mitem(got), has, want, exists)
			}
		}
		if look(after, i, len(c.Ops)) {
			if err := sameParts(after, w, partItems); err != nil {
				return err
			}
		}
		if i%5 == 0 || i == len(c.Ops)-1 {
			for _, l := range limits(len(after.Items)) {
				if err := checkItemList(w, after, l); err != nil {
					return err
				}
			}
		}
		return nil
	})
	return err
}

func runC06(c opsCase, ctx *Ctx) error {
	_, _, err := history(c.Ops, func(i int, o Op, before, after *Model, ok bool, w world.World) error {
		if o.K == "set" || o.K == "delete" {
			for k := range before.Rels {
				if k[0] == o.A || k[1] == o.A {
					ctx.NonTrivial()
					ctx.Hit(o.K + " of a related item")
					break
				}
			}
		}
		switch o.K {
		case "rcreate", "rset", "rdelete":
			if _, exists := before.Rels[[2]string{o.A, o.B}]; exists {
				ctx.Hit(fmt.Sprintf("%s existing, refused %t", o.K, !ok))
			}
			if err := results(o, before, after, ok, w); err != nil {
				return err
			}
			want := map[[2]string]MRel{}
			k := [2]string{o.A, o.B}
			if r, exists := after.Rels[k]; exists {
				want[k] = r
			}
			if d := relSetDiff(want, w.RelFetch(o.A, o.B, true)); d != "" {
				return violf("fetching %q: %s", k, d)
			}
		}
		if look(after, i, len(c.Ops)) {
			return sameParts(after, w, partItems|partRels)
		}
		return nil
	})
	return err
}

func runC07(c opsCase, ctx *Ctx) error {
	asked := 0
	m, w, err := history(c.Ops, func(i int, o Op, before, after *Model, ok bool, w world.World) error {
		// also in the middle, a few times
		if (o.Read || i%23 == 22) && asked < 4 && len(after.Rels) > 0 {
			asked++
			return queries(after, w, ctx)
		}
		return nil
	})
	if err != nil {
		return err
	}
	if asked > 0 {
		ctx.Hit("queries in the middle")
	}
	if m.depth() > 3 {
		ctx.Hit("nested deeper than 3")
	}
	return queries(m, w, ctx)
}

// queries asks a world everything about its relationships and compares with the definition over the model.
func queries(m *Model, w world.World, ctx *Ctx) error {
	ids := sortedKeys(m.Items)
	if len(ids) > 9 {
		step := len(ids)/9 + 1
		var some []string
		for i := 0; i < len(ids); i += step {
			some = append(some, ids[i])
		}
		// and the ones that take part in relationships
		for _, k := range m.relKeys() {
			if len(some) < 14 {
				some = append(some, k[0], k[1])
			}
		}
		ids = some
	}
	ids = append(append([]string{}, ids...), "missing")
	wider := false
	for _, a := range ids {
		for _, b := range ids {
			want := m.relsBetween(a, b, true)
			if d := relSetDiff(want, w.RelFetch(a, b, true)); d != "" {
				return violf("RelFetch(%q, %q, strict): %s", a, b, d)
			}
			all := m.relsBetween(a, b, false)
			wider = wider || len(all) > len(want)
			if d := relSetDiff(all, w.RelFetch(a, b, false)); d != "" {
				return violf("RelFetch(%q, %q, not strict): %s", a, b, d)
			}
		}
		for _, strict := range []bool{true, false} {
			if d := relSetDiff(m.relsBetween("", a, strict), w.RelTo(a, strict)); d != "" {
				return violf("RelTo(%q, %t): %s", a, strict, d)
			}
			if d := relSetDiff(m.relsBetween(a, "", strict), w.RelFrom(a, strict)); d != "" {
				return violf("RelFrom(%q, %t): %s", a, strict, d)
			}
		}
	}
	for _, l := range limits(len(m.Rels)) {
		got := w.RelList(l)
		want := len(m.Rels)
		if l > 0 && l < want {
			want = l
		}
		if len(got) != want {
			return violf("RelList(%d) lists %d of %d relationships", l, len(got), len(m.Rels))
		}
		sub := map[[2]string]MRel{}
		for _, r := range got {
			k := [2]string{r.From.Id, r.To.Id}
			if x, ok := m.Rels[k]; ok {
				sub[k] = x
			}
		}
		if d := relSetDiff(sub, got); d != "" {
			return violf("RelList(%d): %s", l, d)
		}
	}
	if wider {
		ctx.NonTrivial()
	}
	if err := sameAs(m, w); err != nil {
		return violf("after the queries: %w", err)
	}
	return nil
}

func runC18(c opsCase, ctx *Ctx) error {
	_, _, err := history(c.Ops, func(i int, o Op, before, after *Model, ok bool, w world.World) error {
		if err := results(o, before, after, ok, w); err != nil {
			return err
		}
		if !ok {
			ctx.NonTrivial()
			ctx.Hit("refused " + o.K)
			if len(before.Items) <= 25 || i%4 == 0 {
				if err := sameParts(before, w, partAll); err != nil {
					return violf("refused, but: %w", err)
				}
			}
		}
		return nil
	})
	return err
}

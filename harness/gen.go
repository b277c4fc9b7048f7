package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/williamflynt/topolith/pkg/world"
)

const (
	bareChars   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
	quotedChars = bareChars + " !#$%&()*+,.:;=@[]^~"
)

// Texts that look like other parts of the syntax, or that naive handling trips over.
var trickyIds = []string{
	"nil", "in", "item", "items", "rel", "rels", "world", "ok", "error", "create", "delete", "set", "clear", "fetch", "list",
	"exists", "free", "nest", "endworld", "inner", "inventory", "item-1", "items2", "relay", "worldwide", "okay", "error-log",
	"settings", "deleted", "lists", "freedom", "nested", "created", "a b", "a  b", " a", "a ", " ", "a::b", "::", "b::", "::a", ":",
	"strict", "ids", "verbose", "--ids", "-x", "-", "_", "0", "1", "007", "10", "name", "type", "true", "false", "id", "A", "B",
	"name=x", "external=true", "::[", "]", "[]", "$$", "$$$$", "$$world", "endworld$$", "a,b", "a;b", "200", "200 ok", "person",
	"a.b", "x.world", "item a", "rel a b", "a b in c", "~", "^", "*", "a=b", "100%", "%s", "%d", "a&b", "(a)", "a+b", "@home", "#1", "!",
	"tree", "nil::", "nil::[]", "component", "Item", "NIL", "default-world",
}

var trickyTexts = append([]string{
	"  ", " lead", "trail ", "a b  c", "Hello, world!", "$$$$ 200 ok", "item x name=y", "version=2", "expanded=", "errors=[]",
	"type=person", "async=true", "a: b", "x; y", "50% (half)", "%!s(MISSING)", "https", "name", "mechanism", "rel", "=",
}, trickyIds...)

func charText(chars string, min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "len")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(chars[uniform(t, "c", len(chars))])
		}
		return b.String()
	})
}

// uniform draws from 0..n-1 without rapid's preference for small numbers; it still shrinks towards 0.
func uniform(t *rapid.T, label string, n int) int {
	for {
		x := 0
		for m := n - 1; m > 0; m >>= 1 {
			x <<= 1
			if coin.Draw(t, label) {
				x |= 1
			}
		}
		if x < n {
			return x
		}
	}
}

var coin = rapid.Bool()

func pick[V any](t *rapid.T, label string, vs []V) V {
	return vs[uniform(t, label, len(vs))]
}

// weighted draws an index with the given weights; index 0 is the simplest.
func weighted(t *rapid.T, label string, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := uniform(t, label, sum)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

func chance(t *rapid.T, label string, percent int) bool {
	return uniform(t, label, 100) >= 100-percent
}

func genId(t *rapid.T) string {
	if s, ok := dictText(t); ok {
		return s
	}
	switch weighted(t, "idkind", 50, 30, 12, 4, 2) {
	case 0:
		return pick(t, "id", []string{"a", "b", "c", "d", "e", "f", "g", "h"})
	case 1:
		return pick(t, "tricky", trickyIds)
	case 2:
		return charText(quotedChars, 1, 12).Draw(t, "qid")
	case 3:
		return charText(bareChars, 1, 20).Draw(t, "bid")
	default:
		// Long and alike, so that ids that only differ at the end are told apart.
		n, rep := size(t, "n", 10, 200, 2100), pick(t, "rep", []string{"a", "ab", "x-"})
		return strings.Repeat(rep, n/len(rep)+1)[:n] + charText(bareChars, 0, 2).Draw(t, "tail")
	}
}

// genLimit draws the limit of a listing of about n: none, few, exactly or just about all, and far more.
func genLimit(t *rapid.T, n int) int {
	switch weighted(t, "limitkind", 80, 10, 10) {
	case 0:
		return rapid.IntRange(0, n+2).Draw(t, "limit")
	case 1:
		if k, ok := dictSize(t, 1<<30); ok {
			return k
		}
		return pick(t, "round", roundSizes)
	default:
		return pick(t, "huge", []int{1 << 15, 1<<16 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<63 - 1})
	}
}

func genText(t *rapid.T) string {
	if s, ok := dictText(t); ok {
		return s
	}
	switch weighted(t, "textkind", 30, 12, 30, 20, 6, 2) {
	case 0:
		return pick(t, "word", []string{"x", "y", "web", "Shop", "reads"})
	case 1:
		return ""
	case 2:
		return pick(t, "tricky", trickyTexts)
	case 3:
		return charText(quotedChars, 0, 30).Draw(t, "q")
	case 4:
		return charText(bareChars, 1, 12).Draw(t, "b")
	default:
		n, rep := 0, pick(t, "rep", []string{"long ", "x", "a, b; "})
		if chance(t, "huge", 8) {
			n = size(t, "n", 4200, 70000, 110000)
		} else {
			n = size(t, "n", 20, 1000, 4200)
		}
		return strings.Repeat(rep, n/len(rep)+1)[:n]
	}
}

// genIds draws a pool of distinct ids for one case.
func genIds(t *rapid.T, min, max int) []string {
	n := size(t, "ids", min, max, max+max/2)
	if n <= 12 && chance(t, "alike", 15) {
		return alikeIds(t, n)
	}
	var out []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		id := genId(t)
		if n > 12 && chance(t, "plain", 70) {
			id = fmt.Sprintf("n%d", i)
		}
		if seen[id] {
			id = fmt.Sprintf("%s%d", strings.TrimSpace(id), i)
		}
		if id == "" || seen[id] {
			id = fmt.Sprintf("z%d", i)
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

// separators are what code likes to put between two ids to make one key of them.
var separators = []string{"::", "", " ", ":", "-", ".", ",", ";", "_", "=", "+", "@", "~", "#", "$$", "  ", ", ", " to ", "--", "=="}

// alikeIds draws distinct ids that become the same when they are joined, trimmed, folded or cut.
func alikeIds(t *rapid.T, n int) []string {
	sep := pick(t, "sep", separators)
	if s, ok := dictText(t); ok {
		sep = s
	}
	if chance(t, "splits", 30) {
		return splitIds(t, sep, n)
	}
	x := pick(t, "x", []string{"a", "b", "item"})
	forms := []string{x, x + sep + x, sep + x, x + sep, x + sep + x + sep + x, sep, x + x, strings.ToUpper(x), " " + x, x + " ", x + "0", x + "1", x + "00", x + "01", "0" + x}
	var out []string
	seen := map[string]bool{"": true}
	for i := 0; len(out) < n; i++ {
		id := fmt.Sprintf("%s%d", x, i)
		if i < 3*n {
			id = forms[uniform(t, "form", 1+uniform(t, "first forms", len(forms)))]
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// splitIds draws a few pieces and takes ids from the runs of pieces, so that two different pairs of ids are the same
// text when they are joined by the separator.
func splitIds(t *rapid.T, sep string, n int) []string {
	k := 3 + uniform(t, "pieces", 3)
	pieces := make([]string, k)
	for i := range pieces {
		pieces[i] = strings.Repeat(pick(t, "piece", []string{"a", "b", "xyz"}), 1+weighted(t, "times", 50, 20, 10, 8, 4, 3, 3, 2))
	}
	var out []string
	seen := map[string]bool{"": true}
	for i := 0; len(out) < n; i++ {
		id := fmt.Sprintf("s%d", i)
		if i < 3*n {
			// Mostly the beginnings and the ends: two of them make up the whole.
			from, to := 0, k
			switch cut := 1 + uniform(t, "cut", k-1); weighted(t, "part", 45, 45, 10) {
			case 0:
				to = cut
			case 1:
				from = cut
			}
			id = strings.Join(pieces[from:to], sep)
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// alike makes a text that resembles another: equal to it when case, blanks or the ends are overlooked.
func alike(s string, how int) string {
	switch how % 12 {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return strings.TrimSpace(s)
	case 4:
		return " " + s
	case 5:
		return s + " "
	case 6:
		return strings.Join(strings.Fields(s), " ")
	case 7:
		return strings.ReplaceAll(s, " ", "  ")
	case 8:
		return s[:len(s)/2]
	case 9:
		return s[len(s)/2:]
	case 10:
		return s + s
	case 11:
		return s + "0"
	}
	return s
}

func genAlike(t *rapid.T, s string) string { return alike(s, uniform(t, "alike", 12)) }

// genNear draws attributes for something that has some already: the same, resembling, moved or cleared ones.
func genNear(t *rapid.T, keys []string, cur map[string]string) map[string]string {
	p := map[string]string{}
	for _, k := range keys {
		if !chance(t, "near "+k, 45) {
			continue
		}
		switch k {
		case "external", "async":
			p[k] = pick(t, k, []string{cur[k], "true", "false"})
		case "type":
			if cur[k] != "" && chance(t, "same", 60) {
				p[k] = cur[k]
			} else {
				p[k] = pick(t, k, itemTypes)
			}
		default:
			switch weighted(t, "from", 60, 25, 15) {
			case 0:
				p[k] = genAlike(t, cur[k])
			case 1:
				p[k] = cur[pick(t, "other", keys)]
			}
		}
	}
	return p
}

func (it MItem) params() map[string]string {
	return map[string]string{"name": it.Name, "type": it.Type, "mechanism": it.Mech, "expanded": it.Exp, "external": fmt.Sprint(it.Ext)}
}

func (r MRel) params() map[string]string {
	return map[string]string{"verb": r.Verb, "mechanism": r.Mech, "expanded": r.Exp, "async": fmt.Sprint(r.Async)}
}

// near draws attributes for an object of the model as genNear does, if it exists, for a share of the cases.
func (m *Model) near(t *rapid.T, percent int, ids ...string) (map[string]string, bool) {
	if len(ids) == 1 {
		if it, ok := m.Items[ids[0]]; ok && chance(t, "near", percent) {
			return genNear(t, itemKeys, it.params()), true
		}
	} else if r, ok := m.Rels[[2]string{ids[0], ids[1]}]; ok && chance(t, "near", percent) {
		return genNear(t, relKeys, r.params()), true
	}
	return nil, false
}

var itemKeys = []string{"name", "type", "mechanism", "expanded", "external"}
var relKeys = []string{"verb", "mechanism", "expanded", "async"}

func genItemParams(t *rapid.T, percent int) map[string]string {
	p := map[string]string{}
	for _, k := range itemKeys {
		if !chance(t, "has "+k, percent) {
			continue
		}
		switch k {
		case "external":
			p[k] = pick(t, k, []string{"true", "false"})
		case "type":
			p[k] = pick(t, k, itemTypes)
		default:
			p[k] = genText(t)
		}
	}
	return p
}

func genRelParams(t *rapid.T, percent int) map[string]string {
	p := map[string]string{}
	for _, k := range relKeys {
		if !chance(t, "has "+k, percent) {
			continue
		}
		if k == "async" {
			p[k] = pick(t, k, []string{"true", "false"})
		} else {
			p[k] = genText(t)
		}
	}
	return p
}

// --- operations on a world through its API ---

// Op is one operation on a world.
type Op struct {
	K string            `json:"k"`
	A string            `json:"a,omitempty"`
	B string            `json:"b,omitempty"`
	P map[string]string `json:"p,omitempty"`
	N int               `json:"n,omitempty"`
	// Read has the world read in all ways just before the operation: what a later reading gives must not
	// come from then.
	Read bool `json:"read,omitempty"`
}

// mix weighs the kinds of operations.
type mix struct {
	create, set, del, nest, free, rcreate, rset, rdel, info int
	bad                                                     int // percent of operations aimed at being refused
}

var evenMix = mix{create: 20, set: 8, del: 6, nest: 22, free: 5, rcreate: 18, rset: 6, rdel: 4, info: 1, bad: 3}

// opGen draws operations while it follows what exists, so that most of them meet existing items.
type opGen struct {
	ids []string
	m   *Model
	mix mix
}

func (g *opGen) anyId(t *rapid.T) string { return pick(t, "id", g.ids) }

func (g *opGen) existing(t *rapid.T) string {
	if len(g.m.Items) == 0 || chance(t, "any", 6) {
		return g.anyId(t)
	}
	return pick(t, "existing", sortedKeys(g.m.Items))
}

func (g *opGen) rel(t *rapid.T) (string, string) {
	if len(g.m.Rels) == 0 || chance(t, "any", 10) {
		return g.existing(t), g.existing(t)
	}
	k := pick(t, "rel", g.m.relKeys())
	return k[0], k[1]
}

func (g *opGen) draw(t *rapid.T) Op {
	x := g.mix
	var o Op
	if x.bad > 0 && chance(t, "bad", x.bad) {
		switch rapid.IntRange(0, 10).Draw(t, "badkind") {
		case 10:
			o = pick(t, "empty id", []Op{{K: "nest", A: g.existing(t)}, {K: "nest", B: g.existing(t)}, {K: "free"}, {K: "set", P: map[string]string{"name": "n"}},
				{K: "rcreate", A: g.existing(t)}, {K: "rcreate", B: g.existing(t)}, {K: "rset", A: g.existing(t)}, {K: "rset", B: g.existing(t)}})

		case 0:
			o = Op{K: "create", A: ""}
		case 1:
			o = Op{K: "create", A: g.anyId(t), P: map[string]string{"type": pick(t, "badtype", []string{"bogus", "10", "-1", "Person", "person ", "x1", " 1", "1 ", "0x1", "1.0"})}}
		case 2:
			o = Op{K: "set", A: g.existing(t), P: map[string]string{"name": "n", "type": pick(t, "badtype", []string{"bogus", "11", "-3", "DATABASE", " queue", " 2", "2 ", "1e0"})}}
		case 3:
			o = Op{K: "delete", A: ""}
		case 4:
			o = Op{K: "set", A: g.anyId(t), P: genItemParams(t, 40)}
		case 5:
			o = Op{K: "nest", A: g.anyId(t), B: "missing"}
		case 6: // into its own subtree
			a := g.existing(t)
			b := a
			var below []string
			for _, id := range sortedKeys(g.m.Items) {
				if g.m.under(id, a) {
					below = append(below, id)
				}
			}
			if len(below) > 0 {
				b = pick(t, "below", below)
			}
			o = Op{K: "nest", A: a, B: b}
		case 7:
			o = Op{K: "rcreate", A: g.anyId(t), B: g.anyId(t), P: genRelParams(t, 40)}
		case 8:
			o = Op{K: "rset", A: g.anyId(t), B: g.anyId(t), P: genRelParams(t, 40)}
		case 9:
			o = Op{K: "free", A: g.anyId(t)}
		}
	} else {
		switch weighted(t, "op", x.create, x.set, x.del, x.nest, x.free, x.rcreate, x.rset, x.rdel, x.info) {
		case 0:
			o = Op{K: "create", A: g.anyId(t), P: genItemParams(t, 25)}
		case 1:
			o = Op{K: "set", A: g.existing(t), P: genItemParams(t, 40)}
		case 2:
			o = Op{K: "delete", A: g.existing(t)}
		case 3:
			o = Op{K: "nest", A: g.existing(t), B: g.existing(t)}
		case 4:
			o = Op{K: "free", A: g.existing(t)}
		case 5:
			o = Op{K: "rcreate", A: g.existing(t), B: g.existing(t), P: genRelParams(t, 30)}
		case 6:
			a, b := g.rel(t)
			o = Op{K: "rset", A: a, B: b, P: genRelParams(t, 40)}
		case 7:
			a, b := g.rel(t)
			if chance(t, "reversed", 15) {
				a, b = b, a
			}
			o = Op{K: "rdelete", A: a, B: b}
		case 8:
			o = Op{K: pick(t, "info", []string{"setname", "setid", "setexpanded", "setversion"}), A: genText(t), N: rapid.IntRange(0, 3).Draw(t, "v")}
			if o.K == "setversion" && chance(t, "bigversion", 30) {
				o.N = rapid.IntRange(4, 1<<40).Draw(t, "bigv")
			}
		}
	}
	if o.P != nil && (o.K == "create" || o.K == "set") {
		if p, ok := g.m.near(t, 15, o.A); ok {
			o.P = p
		}
	}
	if o.P != nil && (o.K == "rcreate" || o.K == "rset") {
		if p, ok := g.m.near(t, 15, o.A, o.B); ok {
			o.P = p
		}
	}
	g.m.apply(o)
	return o
}

// genOps draws a whole history. Sizes are mostly small; some are large in items, some in length.
func genOps(t *rapid.T, mx mix) []Op {
	g := &opGen{m: newModel("w"), mix: mx}
	n := 0
	huge := false
	switch weighted(t, "size", 600, 300, 80, 20, 5) {
	case 4: // a great many, or very deep
		huge = true
		k := size(t, "ids", 60, 130, 520)
		for i := 0; i < k; i++ {
			g.ids = append(g.ids, fmt.Sprintf("n%d", i))
		}
		n = size(t, "n", 2, 25, 40)
	case 0:
		g.ids = genIds(t, 2, 5)
		n = size(t, "n", 1, 12, 40)
	case 1:
		g.ids = genIds(t, 4, 10)
		n = size(t, "n", 5, 40, 80)
	case 2:
		g.ids = genIds(t, 10, 30)
		n = size(t, "n", 30, 100, 140)
	default:
		g.ids = genIds(t, 20, 60)
		n = size(t, "n", 80, 220, 600)
	}
	if huge {
		return g.huge(t, n)
	}
	ops := make([]Op, 0, n+len(g.ids))
	// Often all ids exist from the start, so that the rest is about what happens to them.
	if chance(t, "prefill", 70) {
		for _, id := range g.ids {
			if chance(t, "left out", 8) {
				continue
			}
			o := Op{K: "create", A: id}
			if chance(t, "attrs", 30) {
				o.P = genItemParams(t, 40)
			}
			g.m.apply(o)
			ops = append(ops, o)
		}
		if shape := weighted(t, "shape", 65, 22, 8, 5, 6); shape > 0 { // a deep or wide start
			tops := 1
			if shape == 4 { // some wide families side by side
				tops = rapid.IntRange(2, 3).Draw(t, "tops")
			}
			for i := tops; i < len(g.ids); i++ {
				var up int
				switch shape {
				case 1:
					up = rapid.IntRange(max(0, i-2), i-1).Draw(t, "p")
				case 2:
					up = 0
				case 3:
					up = uniform(t, "p", min(i, 3))
				case 4:
					up = i % tops
				}
				o := Op{K: "nest", A: g.ids[i], B: g.ids[up]}
				g.m.apply(o)
				ops = append(ops, o)
			}
		}
	}
	for i := 0; i < n; i++ {
		ops = append(ops, g.draw(t))
	}
	reads := []int{0, 6, 25}[weighted(t, "reads", 50, 35, 15)]
	for i := range ops {
		if reads > 0 && i > 0 && chance(t, "read", reads) {
			ops[i].Read = true
		}
	}
	return ops
}

// huge fills a world with all ids in one shape and lets a few operations follow.
func (g *opGen) huge(t *rapid.T, n int) []Op {
	var ops []Op
	put := func(o Op) {
		g.m.apply(o)
		ops = append(ops, o)
	}
	last := len(g.ids) - 1
	shape := uniform(t, "shape", 4)
	for i, id := range g.ids {
		put(Op{K: "create", A: id})
		if i == 0 {
			continue
		}
		switch shape {
		case 0: // one below the other
			put(Op{K: "nest", A: id, B: g.ids[i-1]})
		case 1: // all below one
			put(Op{K: "nest", A: id, B: g.ids[0]})
		case 2:
			put(Op{K: "nest", A: id, B: g.ids[i/8]})
		}
	}
	// Relationships at the ends of it.
	for i := uniform(t, "rels", 4); i > 0; i-- {
		put(Op{K: "rcreate", A: g.ids[pick(t, "from", []int{0, 1, last / 2, last - 1, last})], B: g.ids[pick(t, "to", []int{0, 1, last / 2, last - 1, last})]})
	}
	if chance(t, "many rels", 15) {
		for i := range g.ids {
			put(Op{K: "rcreate", A: g.ids[i], B: g.ids[(i*7+1)%len(g.ids)]})
		}
	}
	for i := 0; i < n; i++ {
		ops = append(ops, g.draw(t))
	}
	return ops
}

// touch reads a world in all ways its API has, for some of its items and those of an operation, and forgets
// the answers.
func touch(w world.World, o Op) {
	items := w.ItemList(0)
	rels := w.RelList(0)
	_, _, _, _ = w.Id(), w.Name(), w.Expanded(), w.Version()
	writable := quotable(w.Id()) && quotable(w.Name()) && quotable(w.Expanded())
	for _, it := range items {
		writable = writable && quotableItem(mitem(it))
	}
	for _, r := range rels {
		writable = writable && quotable(r.Verb) && quotable(r.Mechanism) && quotable(r.Expanded)
	}
	if writable {
		_ = w.String()
	}
	var all, ids []string
	for _, it := range items {
		all = append(all, it.Id)
	}
	sort.Strings(all)
	ids = append(ids, o.A, o.B)
	for i := 0; i < len(all); i += len(all)/5 + 1 {
		ids = append(ids, all[i])
	}
	for _, a := range all {
		w.ItemFetch(a)
		w.Parent(a)
		w.Components(a)
		if len(all) <= 12 {
			w.RelTo(a, false)
			w.RelFrom(a, false)
		}
	}
	for _, a := range ids {
		for _, strict := range []bool{true, false} {
			w.RelTo(a, strict)
			w.RelFrom(a, strict)
			for _, b := range ids {
				w.RelFetch(a, b, strict)
				w.In(a, b, strict)
			}
		}
	}
	if writable {
		_ = w.String() // again: the readings above may have emptied what the first one filled
	}
}

// apply runs an operation on the model.
func (m *Model) apply(o Op) bool {
	switch o.K {
	case "create":
		return m.itemCreate(o.A, o.P)
	case "set":
		return m.itemSet(o.A, o.P)
	case "delete":
		return m.itemDelete(o.A)
	case "nest":
		return m.nest(o.A, o.B)
	case "free":
		return m.free(o.A)
	case "rcreate":
		return m.relCreate(o.A, o.B, o.P)
	case "rset":
		return m.relSet(o.A, o.B, o.P)
	case "rdelete":
		return m.relDelete(o.A, o.B)
	case "setname":
		m.Name = o.A
	case "setid":
		m.Id = o.A
	case "setexpanded":
		m.Expanded = o.A
	case "setversion":
		m.Version = o.N
	}
	return true
}

func modelOf(name string, ops []Op) *Model {
	m := newModel(name)
	for _, o := range ops {
		m.apply(o)
	}
	return m
}

func strp(p map[string]string, k string) *string {
	if v, ok := p[k]; ok {
		return &v
	}
	return nil
}

func boolp(p map[string]string, k string) *bool {
	if v, ok := p[k]; ok {
		b := v == "true"
		return &b
	}
	return nil
}

func itemParams(p map[string]string) world.ItemParams {
	return world.ItemParams{External: boolp(p, "external"), Type: strp(p, "type"), Name: strp(p, "name"), Mechanism: strp(p, "mechanism"), Expanded: strp(p, "expanded")}
}

func relParams(p map[string]string) world.RelParams {
	return world.RelParams{Verb: strp(p, "verb"), Mechanism: strp(p, "mechanism"), Async: boolp(p, "async"), Expanded: strp(p, "expanded")}
}

// do runs an operation on a real world and returns the world as the operation returned it.
func do(w world.World, o Op) world.World {
	if o.Read {
		touch(w, o)
	}
	switch o.K {
	case "create":
		return w.ItemCreate(o.A, itemParams(o.P))
	case "set":
		return w.ItemSet(o.A, itemParams(o.P))
	case "delete":
		return w.ItemDelete(o.A)
	case "nest":
		return w.Nest(o.A, o.B)
	case "free":
		return w.Free(o.A)
	case "rcreate":
		return w.RelCreate(o.A, o.B, relParams(o.P))
	case "rset":
		return w.RelSet(o.A, o.B, relParams(o.P))
	case "rdelete":
		return w.RelDelete(o.A, o.B)
	case "setname":
		return w.SetName(o.A)
	case "setid":
		return w.SetId(o.A)
	case "setexpanded":
		return w.SetExpanded(o.A)
	case "setversion":
		return w.SetVersion(o.N)
	}
	panic(harnessError{fmt.Errorf("no operation %q", o.K)})
}

func build(name string, ops []Op) world.World {
	w := world.CreateWorld(name)
	for _, o := range ops {
		do(w, o)
	}
	return w
}

func sortStrings(s []string) { sort.Strings(s) }

// quotable tells whether the syntax has a way to write a text.
func quotable(s string) bool {
	for _, r := range s {
		if r > 126 || !strings.ContainsRune(quotedChars, r) {
			return false
		}
	}
	return true
}

func quotableItem(it MItem) bool {
	return quotable(it.Id) && quotable(it.Name) && quotable(it.Mech) && quotable(it.Exp)
}

var wildParts = []string{"\n", "\"", "\\", "\x00", "é", "e\u0301", "ſ", "K", "İ", "日本", "🙂", "\t", "\r\n", "'", "`", "<", ">", "/", "{", "}", "|", "?", "\u00a0", "\ufeff", "\u2028", "\x7f", "%s", "%!", "${x}", "ß", "SS", "ﬀ", "\u200d"}

// wildText makes of a text one that the syntax has no way to write.
func wildText(t *rapid.T, s string) string {
	x := pick(t, "part", wildParts)
	switch weighted(t, "place", 35, 25, 20, 20) {
	case 0:
		return s + x
	case 1:
		return x + s
	case 2:
		return x
	default:
		return s + x + pick(t, "part2", wildParts) + s
	}
}

// wildIds puts, in some cases, such texts in place of a few ids.
func wildIds(t *rapid.T, ids []string) []string {
	if !chance(t, "wild", 20) {
		return ids
	}
	taken := map[string]bool{"": true}
	for _, id := range ids {
		taken[id] = true
	}
	out := append([]string{}, ids...)
	for i, id := range out {
		if chance(t, "wild id", 35) {
			if c := wildText(t, id); !taken[c] {
				out[i], taken[c] = c, true
			}
		}
	}
	return out
}

// wild gives, in some cases, a few ids and attributes of a history texts the syntax has no way to write (quotes,
// line ends, other scripts): the API takes any text. The same id becomes the same text everywhere.
func wild(t *rapid.T, ops []Op) []Op {
	if !chance(t, "wild", 20) {
		return ops
	}
	names := map[string]string{"": ""}
	taken := map[string]bool{}
	for _, o := range ops {
		taken[o.A], taken[o.B] = true, true
	}
	id := func(s string) string {
		n, ok := names[s]
		if !ok {
			n = s
			if chance(t, "wild id", 35) {
				if c := wildText(t, s); !taken[c] {
					n, taken[c] = c, true
				}
			}
			names[s] = n
		}
		return n
	}
	out := make([]Op, len(ops))
	for i, o := range ops {
		switch o.K {
		case "setname", "setid", "setexpanded", "setversion":
			if chance(t, "wild text", 30) {
				o.A = wildText(t, o.A)
			}
		default:
			o.A, o.B = id(o.A), id(o.B)
		}
		if o.P != nil {
			p := map[string]string{}
			for _, k := range sortedKeys(o.P) {
				v := o.P[k]
				switch k {
				case "name", "mechanism", "expanded", "verb":
					if chance(t, "wild attr", 25) {
						v = wildText(t, v)
					}
				}
				p[k] = v
			}
			o.P = p
		}
		out[i] = o
	}
	return out
}

package main

// Command lines: an abstract form, its rendering in many spellings, a reference reader of lines that shares
// nothing with the grammar under test, and the model's prediction of each answer.

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Cmd is one command.
type Cmd struct {
	R string   `json:"r"`           // item, rel or world
	V string   `json:"v"`           // the action, as in the grammar; "components" for 'item in X'
	A string   `json:"a,omitempty"` // first id
	B string   `json:"b,omitempty"` // second id: end of a relationship, parent
	L []string `json:"l,omitempty"` // ids of nest and free
	P []KV     `json:"p,omitempty"` // attributes in order; for clear only the keys
	N int      `json:"n,omitempty"` // limit, -1 for none
	H string   `json:"h,omitempty"` // a limit that no integer holds, instead of N
	F []string `json:"f,omitempty"` // flags
	Q uint64   `json:"q,omitempty"` // spelling: 0 is the plain one
}

func (c Cmd) params() map[string]string {
	p := map[string]string{}
	for _, kv := range c.P {
		v := kv.V
		if c.V == "clear" {
			v = ""
		}
		p[kv.K] = v
	}
	return p
}

func (c Cmd) strict() bool {
	for _, f := range c.F {
		if f == "strict" {
			return true
		}
	}
	return false
}

var reserved = map[string]bool{"world": true, "endworld": true, "error": true, "ok": true, "item": true, "items": true, "rel": true, "rels": true,
	"in": true, "create": true, "delete": true, "set": true, "clear": true, "fetch": true, "list": true, "exists": true, "free": true, "nest": true}

func isBare(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.Contains(bareChars, s[i:i+1]) {
			return false
		}
	}
	return true
}

func bareId(s string) bool { return isBare(s) && !reserved[s] && s[0] != '-' }

type speller struct {
	r *rand.Rand
}

func (s *speller) yes(percent int) bool { return s.r != nil && s.r.IntN(100) < percent }

func (s *speller) gap() string {
	if !s.yes(25) {
		return " "
	}
	ws := []string{"  ", "\t", "\n", "\r\n", " \t ", "\r", "   "}
	return ws[s.r.IntN(len(ws))]
}

func (s *speller) id(id string) string {
	if bareId(id) && !s.yes(40) {
		return id
	}
	return `"` + id + `"`
}

func (s *speller) value(v string) string {
	if isBare(v) && !s.yes(50) {
		return v
	}
	return `"` + v + `"`
}

// line renders the command.
func (c Cmd) line() string {
	s := &speller{}
	if c.Q != 0 {
		s.r = rand.New(rand.NewPCG(c.Q, 7))
	}
	var w []string
	noun := c.R
	if s.yes(15) && c.R != "world" {
		noun += "s"
	}
	ids := func(l ...string) {
		for _, id := range l {
			w = append(w, s.id(id))
		}
	}
	switch c.V {
	case "nest", "free":
		w = append(w, c.V)
		ids(c.L...)
		if c.V == "nest" {
			w = append(w, "in", s.id(c.B))
		}
	case "in?", "from?", "to?":
		w = append(w, c.V)
		ids(c.A)
		if c.V == "in?" {
			ids(c.B)
		}
	case "components":
		w = append(w, noun, "in")
		ids(c.A)
	case "exists":
		if s.yes(50) {
			w = append(w, c.R+"?")
		} else {
			w = append(w, noun, "exists")
		}
		ids(c.A)
		if c.R == "rel" {
			ids(c.B)
		}
	case "list":
		w = append(w, noun, "list")
		if c.H != "" {
			w = append(w, c.H)
		} else if c.N >= 0 {
			w = append(w, strconv.Itoa(c.N))
		}
	default:
		if c.R == "world" {
			w = append(w, "world")
			break
		}
		w = append(w, noun)
		if c.V != "cof" && c.V != "cos" {
			w = append(w, c.V)
		}
		ids(c.A)
		if c.R == "rel" {
			ids(c.B)
		}
		for _, kv := range c.P {
			switch {
			case c.V == "clear":
				w = append(w, kv.K)
			case kv.K == "type" || kv.K == "external" || kv.K == "async":
				w = append(w, kv.K+"="+kv.V)
			default:
				w = append(w, kv.K+"="+s.value(kv.V))
			}
		}
	}
	for _, f := range c.F {
		dash := "--"
		if s.yes(30) {
			dash = "-"
		}
		w = append(w, dash+f)
	}
	var b strings.Builder
	if s.yes(10) {
		b.WriteString(s.gap())
	}
	for i, x := range w {
		if i > 0 {
			b.WriteString(s.gap())
		}
		b.WriteString(x)
	}
	if s.yes(15) {
		b.WriteString(s.gap())
	}
	return b.String()
}

// --- drawing commands ---

type cmdMix struct {
	mutate, query, refuse int
	flags                 bool // also flags that change nothing that is specified
	info                  bool
}

type cmdGen struct {
	ids []string
	m   *Model
	mix cmdMix
}

func genKVs(t *rapid.T, item bool, percent int) []KV {
	var p map[string]string
	keys := relKeys
	if item {
		p, keys = genItemParams(t, percent), itemKeys
	} else {
		p = genRelParams(t, percent)
	}
	var out []KV
	for _, k := range keys {
		if v, ok := p[k]; ok {
			out = append(out, KV{k, v})
		}
	}
	if len(out) > 1 && chance(t, "reorder", 30) {
		i := rapid.IntRange(1, len(out)-1).Draw(t, "i")
		out[0], out[i] = out[i], out[0]
	}
	if len(out) > 0 && chance(t, "twice", 5) {
		out = append(out, out[0])
		if k := out[0].K; k != "type" && k != "external" && k != "async" {
			out[0].V = genText(t)
		}
	}
	return out
}

// near puts attributes that resemble the present ones in place of others, at times.
func (g *cmdGen) near(t *rapid.T, kvs []KV, ids ...string) []KV {
	p, ok := g.m.near(t, 12, ids...)
	if !ok || len(kvs) == 0 {
		return kvs
	}
	var out []KV
	for _, k := range sortedKeys(p) {
		if v := p[k]; k != "type" || v != "" {
			out = append(out, KV{k, v})
		}
	}
	return out
}

func (g *cmdGen) existing(t *rapid.T) string {
	if len(g.m.Items) == 0 || chance(t, "any", 8) {
		return pick(t, "id", g.ids)
	}
	return pick(t, "existing", sortedKeys(g.m.Items))
}

func (g *cmdGen) rel(t *rapid.T) (string, string) {
	if len(g.m.Rels) == 0 || chance(t, "any", 25) {
		return g.existing(t), g.existing(t)
	}
	k := pick(t, "rel", g.m.relKeys())
	if chance(t, "reversed", 10) {
		k[0], k[1] = k[1], k[0]
	}
	return k[0], k[1]
}

func (g *cmdGen) list(t *rapid.T) []string {
	var out []string
	switch k := weighted(t, "n", 56, 20, 12, 6, 6); k {
	case 4:
		// Many, each once: all or most of what exists, in any order.
		all := sortedKeys(g.m.Items)
		for i := len(all) - 1; i > 0; i-- {
			j := uniform(t, "swap", i+1)
			all[i], all[j] = all[j], all[i]
		}
		if len(all) > 40 {
			all = all[:40]
		}
		for _, id := range all {
			if chance(t, "listed", 80) {
				out = append(out, id)
			}
		}
		if len(out) == 0 {
			out = append(out, g.existing(t))
		}
	default:
		for i := 0; i <= k; i++ {
			out = append(out, g.existing(t))
		}
	}
	return out
}

// listWith draws a list that has the given id somewhere, mostly at its end.
func (g *cmdGen) listWith(t *rapid.T, id string) []string {
	l := append(g.list(t), id)
	if i := len(l) - 1; chance(t, "elsewhere", 35) {
		j := uniform(t, "at", len(l))
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// missing draws an id that no item has, if the pool has one.
func (g *cmdGen) missing(t *rapid.T) string {
	var free []string
	for _, id := range g.ids {
		if _, ok := g.m.Items[id]; !ok {
			free = append(free, id)
		}
	}
	if len(free) == 0 || chance(t, "any", 20) {
		return pick(t, "id", g.ids)
	}
	return pick(t, "missing", free)
}

// shape draws a command without regard to flags and spelling.
func (g *cmdGen) shape(t *rapid.T) Cmd {
	item := func(v string) Cmd { return Cmd{R: "item", V: v, A: g.existing(t), N: -1} }
	rel := func(v string) Cmd {
		a, b := g.rel(t)
		return Cmd{R: "rel", V: v, A: a, B: b, N: -1}
	}
	if g.mix.refuse > 0 && chance(t, "refuse", g.mix.refuse) {
		switch rapid.IntRange(0, 6).Draw(t, "refusekind") {
		case 0:
			c := Cmd{R: "item", V: pick(t, "v", []string{"fetch", "set", "clear", "components"}), A: pick(t, "id", g.ids), N: -1}
			if c.V == "set" || c.V == "clear" {
				c.P = []KV{{"name", "x"}}
			}
			return c
		case 1:
			c := Cmd{R: "rel", V: pick(t, "v", []string{"fetch", "set", "clear"}), A: pick(t, "id", g.ids), B: pick(t, "id", g.ids), N: -1}
			if c.V != "fetch" {
				c.P = []KV{{"verb", "x"}}
			}
			return c
		case 2:
			return Cmd{R: "item", V: "nest", L: g.list(t), B: pick(t, "id", g.ids), N: -1}
		case 3:
			l := g.listWith(t, g.missing(t))
			return Cmd{R: "item", V: "nest", L: l, B: g.existing(t), N: -1}
		case 4: // an ancestor into its own subtree
			a := g.existing(t)
			b := a
			for _, id := range sortedKeys(g.m.Items) {
				if g.m.under(id, a) && (b == a || chance(t, "deeper", 50)) {
					b = id
				}
			}
			return Cmd{R: "item", V: "nest", L: g.listWith(t, a), B: b, N: -1}
		case 5:
			return Cmd{R: "item", V: "free", L: g.listWith(t, g.missing(t)), N: -1}
		default:
			c := Cmd{R: "rel", V: pick(t, "v", []string{"create", "cof", "cos"}), A: pick(t, "id", g.ids), B: pick(t, "id", g.ids), N: -1}
			if c.V != "cof" {
				c.P = []KV{{"verb", "x"}}
			}
			return c
		}
	}
	if weighted(t, "kind", g.mix.mutate, g.mix.query) == 0 {
		switch weighted(t, "mutation", 8, 8, 6, 8, 4, 7, 16, 5, 8, 6, 6, 6, 4, 5) {
		case 0:
			c := Cmd{R: "item", V: "create", A: pick(t, "id", g.ids), N: -1}
			c.P = g.near(t, genKVs(t, true, 30), c.A)
			return c
		case 1:
			return Cmd{R: "item", V: "cof", A: pick(t, "id", g.ids), N: -1}
		case 2:
			c := Cmd{R: "item", V: "cos", A: pick(t, "id", g.ids), N: -1}
			c.P = append(g.near(t, genKVs(t, true, 30), c.A), KV{"name", genText(t)})
			return c
		case 3:
			c := item("set")
			c.P = g.near(t, genKVs(t, true, 40), c.A)
			return c
		case 4:
			c := item("clear")
			c.P = append(genKVs(t, true, 30), KV{pick(t, "key", itemKeys), ""})
			return c
		case 5:
			return item("delete")
		case 6:
			return Cmd{R: "item", V: "nest", L: g.list(t), B: g.existing(t), N: -1}
		case 7:
			return Cmd{R: "item", V: "free", L: g.list(t), N: -1}
		case 8:
			c := Cmd{R: "rel", V: "create", A: g.existing(t), B: g.existing(t), N: -1}
			c.P = g.near(t, genKVs(t, false, 30), c.A, c.B)
			return c
		case 9:
			return Cmd{R: "rel", V: "cof", A: g.existing(t), B: g.existing(t), N: -1}
		case 10:
			c := Cmd{R: "rel", V: "cos", A: g.existing(t), B: g.existing(t), N: -1}
			c.P = append(genKVs(t, false, 30), KV{"verb", genText(t)})
			return c
		case 11:
			c := rel("set")
			c.P = g.near(t, genKVs(t, false, 40), c.A, c.B)
			return c
		case 12:
			c := rel("clear")
			c.P = append(genKVs(t, false, 30), KV{pick(t, "key", relKeys), ""})
			return c
		default:
			return rel("delete")
		}
	}
	limit := func(v, r string) Cmd {
		n := -1
		if chance(t, "limited", 50) {
			n = genLimit(t, len(g.ids))
			if chance(t, "beyond", 4) {
				return Cmd{R: r, V: v, N: -1, H: pick(t, "beyondall", []string{"9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", strings.Repeat("9", 60)})}
			}
		}
		return Cmd{R: r, V: v, N: n}
	}
	switch weighted(t, "query", 6, 6, 6, 8, 10, 6, 8, 6, 6, 6, 4) {
	case 0:
		return item("fetch")
	case 1:
		return limit("list", "item")
	case 2:
		return item("exists")
	case 3:
		return item("components")
	case 4:
		return Cmd{R: "item", V: "in?", A: g.existing(t), B: g.existing(t), N: -1}
	case 5:
		return rel("fetch")
	case 6:
		return rel("exists")
	case 7:
		return limit("list", "rel")
	case 8:
		return Cmd{R: "rel", V: "to?", A: g.existing(t), N: -1}
	case 9:
		return Cmd{R: "rel", V: "from?", A: g.existing(t), N: -1}
	default:
		return Cmd{R: "world", V: "fetch", N: -1}
	}
}

func (g *cmdGen) draw(t *rapid.T) Cmd {
	c := g.shape(t)
	switch c.V {
	case "in?", "to?", "from?", "fetch":
		if c.R != "world" && chance(t, "strict", 40) {
			c.F = append(c.F, "strict")
		}
	}
	if g.mix.flags && chance(t, "flags", 10) {
		c.F = append(c.F, pick(t, "flag", []string{"strict", "verbose", "ids"}))
	}
	if chance(t, "spelling", 40) {
		c.Q = rapid.Uint64Range(1, 1<<32).Draw(t, "q")
	}
	g.m.answer(c)
	return c
}

func genCmds(t *rapid.T, mx cmdMix) []Cmd {
	g := &cmdGen{m: newModel("w"), mix: mx}
	n := 0
	switch weighted(t, "size", 60, 32, 7, 1) {
	case 0:
		g.ids = genIds(t, 2, 5)
		n = size(t, "n", 1, 12, 40)
	case 1:
		g.ids = genIds(t, 4, 9)
		n = size(t, "n", 5, 35, 80)
	case 2:
		g.ids = genIds(t, 8, 25)
		n = size(t, "n", 30, 90, 140)
	default:
		g.ids = genIds(t, 15, 40)
		n = size(t, "n", 120, 300, 600)
	}
	return g.fill(t, n)
}

func (g *cmdGen) fill(t *rapid.T, n int) []Cmd {
	var out []Cmd
	if chance(t, "prefill", 70) {
		for _, id := range g.ids {
			if chance(t, "left out", 8) {
				continue
			}
			c := Cmd{R: "item", V: "create", A: id, N: -1}
			if chance(t, "attrs", 30) {
				c.P = genKVs(t, true, 40)
			}
			g.m.answer(c)
			out = append(out, c)
		}
		if chance(t, "chain", 25) {
			for i := 1; i < len(g.ids); i++ {
				c := Cmd{R: "item", V: "nest", L: []string{g.ids[i]}, B: g.ids[rapid.IntRange(max(0, i-2), i-1).Draw(t, "p")], N: -1}
				g.m.answer(c)
				out = append(out, c)
			}
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, g.draw(t))
	}
	return out
}

// --- the model's answer ---

// Answer is what the model expects of a command.
type Answer struct {
	OK    bool
	Kind  string // item, rel, items, rels, bool, world, relany, any
	Item  MItem
	Rel   MRel
	Items map[string]MItem
	Rels  map[[2]string]MRel
	Limit int // for items and rels: how many to expect out of the set
	Bool  bool
}

// answer runs a command on the model.
func (m *Model) answer(c Cmd) Answer {
	refused := Answer{}
	p := c.params()
	itemNow := func() Answer { return Answer{OK: true, Kind: "item", Item: m.Items[c.A]} }
	k := [2]string{c.A, c.B}
	relNow := func() Answer { return Answer{OK: true, Kind: "rel", Rel: m.Rels[k]} }
	_, hasItem := m.Items[c.A]
	_, hasRel := m.Rels[k]
	limited := func(n int) int {
		if c.N > 0 && c.N < n {
			return c.N
		}
		return n
	}
	if c.R == "world" {
		return Answer{OK: true, Kind: "world"}
	}
	switch c.R + " " + c.V {
	case "item create", "item cof":
		if !hasItem {
			if !m.itemCreate(c.A, p) {
				return refused
			}
		}
		return itemNow()
	case "item cos":
		if !hasItem {
			if !m.itemCreate(c.A, p) {
				return refused
			}
		} else {
			m.itemSet(c.A, p)
		}
		return itemNow()
	case "item set", "item clear":
		if !m.itemSet(c.A, p) {
			return refused
		}
		return itemNow()
	case "item delete":
		m.itemDelete(c.A)
		return Answer{OK: true, Kind: "any"}
	case "item fetch":
		if !hasItem {
			return refused
		}
		return itemNow()
	case "item list":
		return Answer{OK: true, Kind: "items", Items: m.clone().Items, Limit: limited(len(m.Items))}
	case "item exists":
		return Answer{OK: true, Kind: "bool", Bool: hasItem}
	case "item components":
		if !hasItem {
			return refused
		}
		is := map[string]MItem{}
		for _, id := range m.children(c.A) {
			is[id] = m.Items[id]
		}
		return Answer{OK: true, Kind: "items", Items: is, Limit: len(is)}
	case "item in?":
		return Answer{OK: true, Kind: "bool", Bool: m.in(c.A, c.B, c.strict())}
	case "item nest", "item free":
		before := m.clone()
		for _, id := range c.L {
			ok := false
			if c.V == "nest" {
				ok = m.nest(id, c.B)
			} else {
				ok = m.free(id)
			}
			if !ok {
				*m = *before
				return refused
			}
		}
		return Answer{OK: true, Kind: "bool", Bool: true}
	case "rel create", "rel cof":
		if !hasRel && !m.relCreate(c.A, c.B, p) {
			return refused
		}
		return relNow()
	case "rel cos":
		if hasRel {
			m.relSet(c.A, c.B, p)
		} else if !m.relCreate(c.A, c.B, p) {
			return refused
		}
		return relNow()
	case "rel set", "rel clear":
		if !m.relSet(c.A, c.B, p) {
			return refused
		}
		return relNow()
	case "rel delete":
		m.relDelete(c.A, c.B)
		return Answer{OK: true, Kind: "any"}
	case "rel fetch":
		rs := m.relsBetween(c.A, c.B, c.strict())
		if len(rs) == 0 {
			return refused
		}
		return Answer{OK: true, Kind: "relany", Rels: rs}
	case "rel exists":
		return Answer{OK: true, Kind: "bool", Bool: hasRel}
	case "rel list":
		return Answer{OK: true, Kind: "rels", Rels: m.clone().Rels, Limit: limited(len(m.Rels))}
	case "rel to?":
		rs := m.relsBetween("", c.A, c.strict())
		return Answer{OK: true, Kind: "rels", Rels: rs, Limit: len(rs)}
	case "rel from?":
		rs := m.relsBetween(c.A, "", c.strict())
		return Answer{OK: true, Kind: "rels", Rels: rs, Limit: len(rs)}
	}
	panic(harnessError{fmt.Errorf("no prediction for %+v", c)})
}

func mutates(c Cmd) bool {
	switch c.V {
	case "create", "cof", "cos", "set", "clear", "delete", "nest", "free":
		return true
	}
	return false
}

// --- reading answers ---

// split takes an answer apart: its object text, its status code and the rest of the status line.
func splitAnswer(s string) (obj string, code int, rest string, err error) {
	status := s
	if i := strings.LastIndex(s, "\n$$$$\n"); i >= 0 {
		obj, status = s[:i], s[i+6:]
	}
	n := 0
	for n < len(status) && status[n] >= '0' && status[n] <= '9' {
		n++
	}
	code, err = strconv.Atoi(status[:n])
	if err != nil {
		return obj, 0, "", fmt.Errorf("answer %q has no status code", clip(s))
	}
	return obj, code, status[n:], nil
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// objectLines reads the item and relationship lines of an object with the reference reader.
func objectLines(obj string) (items []MItem, rels []MRel, err error) {
	if strings.TrimSpace(obj) == "" {
		return nil, nil, nil
	}
	for _, l := range strings.Split(obj, "\n") {
		c, v := refRead(l)
		if v != accept || (c.V != "cof" && c.V != "cos") {
			return nil, nil, fmt.Errorf("%q is not the text of an item or relationship", clip(l))
		}
		if c.R == "item" {
			items = append(items, setItem(MItem{Id: c.A}, c.params()))
		} else {
			rels = append(rels, setRel(MRel{From: c.A, To: c.B}, c.params()))
		}
	}
	return items, rels, nil
}

// judge compares an answer with what the model expects, given the model after the command.
func judge(want Answer, got string, m *Model) error {
	obj, code, _, err := splitAnswer(got)
	if err != nil {
		return err
	}
	if !want.OK {
		if code < 400 {
			return fmt.Errorf("answered %d where an error was due: %q", code, clip(got))
		}
		return nil
	}
	if code != 200 {
		return fmt.Errorf("answered %d where success was due: %q", code, clip(got))
	}
	switch want.Kind {
	case "any":
		return nil
	case "bool":
		if strings.TrimSpace(obj) != strconv.FormatBool(want.Bool) {
			return fmt.Errorf("answered %q, the truth is %t", clip(obj), want.Bool)
		}
		return nil
	case "world":
		w, err := world.FromString(obj)
		if err != nil {
			return fmt.Errorf("the answered world cannot be read: %v", err)
		}
		if err := sameAs(m, w); err != nil {
			return fmt.Errorf("the answered world is not the world: %v", err)
		}
		return nil
	}
	items, rels, err := objectLines(obj)
	if err != nil {
		return fmt.Errorf("answer %q: %v", clip(got), err)
	}
	switch want.Kind {
	case "item":
		if len(items) != 1 || len(rels) != 0 || items[0] != want.Item {
			return fmt.Errorf("answered %q, the item is %+v", clip(obj), want.Item)
		}
	case "rel":
		if len(rels) != 1 || len(items) != 0 || rels[0] != want.Rel {
			return fmt.Errorf("answered %q, the relationship is %+v", clip(obj), want.Rel)
		}
	case "relany":
		if len(rels) != 1 || len(items) != 0 {
			return fmt.Errorf("answered %q, expected one relationship", clip(obj))
		}
		if w, ok := want.Rels[[2]string{rels[0].From, rels[0].To}]; !ok || w != rels[0] {
			return fmt.Errorf("answered %q, which is none of %+v", clip(obj), want.Rels)
		}
	case "items":
		if len(rels) != 0 || len(items) != want.Limit {
			return fmt.Errorf("answered %d items, expected %d: %q", len(items), want.Limit, clip(obj))
		}
		seen := map[string]bool{}
		for _, it := range items {
			if w, ok := want.Items[it.Id]; !ok || w != it || seen[it.Id] {
				return fmt.Errorf("answered item %+v, expected %+v (once)", it, w)
			}
			seen[it.Id] = true
		}
	case "rels":
		if len(items) != 0 || len(rels) != want.Limit {
			return fmt.Errorf("answered %d relationships, expected %d: %q", len(rels), want.Limit, clip(obj))
		}
		seen := map[[2]string]bool{}
		for _, r := range rels {
			k := [2]string{r.From, r.To}
			if w, ok := want.Rels[k]; !ok || w != r || seen[k] {
				return fmt.Errorf("answered relationship %+v, expected %+v (once)", r, w)
			}
			seen[k] = true
		}
	}
	return nil
}

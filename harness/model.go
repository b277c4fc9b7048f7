package main

// The reference model of a world: items, one parent each, relationships by ordered pair. Everything that
// the checks compare is read from the code under test through its public interface (observe).

import (
	"fmt"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

type MItem struct {
	Id, Name, Mech, Exp, Type string
	Ext                       bool
}

type MRel struct {
	From, To, Verb, Mech, Exp string
	Async                     bool
}

type Model struct {
	Version            int
	Id, Name, Expanded string
	Items              map[string]MItem
	Parent             map[string]string // "" for the top level
	Rels               map[[2]string]MRel
}

func newModel(name string) *Model {
	return &Model{Version: 1, Id: name, Name: name, Items: map[string]MItem{}, Parent: map[string]string{}, Rels: map[[2]string]MRel{}}
}

func (m *Model) clone() *Model {
	n := *m
	n.Items = make(map[string]MItem, len(m.Items))
	n.Parent = make(map[string]string, len(m.Parent))
	n.Rels = make(map[[2]string]MRel, len(m.Rels))
	for k, v := range m.Items {
		n.Items[k] = v
	}
	for k, v := range m.Parent {
		n.Parent[k] = v
	}
	for k, v := range m.Rels {
		n.Rels[k] = v
	}
	return &n
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m *Model) relKeys() [][2]string {
	out := make([][2]string, 0, len(m.Rels))
	for k := range m.Rels {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i][0] != out[j][0] {
			return out[i][0] < out[j][0]
		}
		return out[i][1] < out[j][1]
	})
	return out
}

func (m *Model) children(id string) []string {
	out := []string{}
	for c, p := range m.Parent {
		if p == id {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

// under tells whether id is an item nested anywhere below root.
func (m *Model) under(id, root string) bool {
	for p, ok := m.Parent[id]; ok && p != ""; p, ok = m.Parent[p] {
		if p == root {
			return true
		}
	}
	return false
}

func (m *Model) in(child, parent string, strict bool) bool {
	if _, ok := m.Items[parent]; !ok {
		return false
	}
	if _, ok := m.Items[child]; !ok {
		return false
	}
	return child == parent || (!strict && m.under(child, parent))
}

func (m *Model) depth() int {
	d := 0
	for id := range m.Items {
		n := 1
		for p := m.Parent[id]; p != ""; p = m.Parent[p] {
			n++
		}
		if n > d {
			d = n
		}
	}
	return d
}

// --- operations of the model; each returns whether it succeeds ---

var itemTypes = []string{"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

func validType(s string) bool {
	if s == "" {
		return true
	}
	for _, t := range itemTypes {
		if s == t {
			return true
		}
	}
	return false
}

func setItem(it MItem, p map[string]string) MItem {
	for k, v := range p {
		switch k {
		case "name":
			it.Name = v
		case "mechanism":
			it.Mech = v
		case "expanded":
			it.Exp = v
		case "external":
			it.Ext = v == "true"
		case "type":
			it.Type = v
		}
	}
	return it
}

func setRel(r MRel, p map[string]string) MRel {
	for k, v := range p {
		switch k {
		case "verb":
			r.Verb = v
		case "mechanism":
			r.Mech = v
		case "expanded":
			r.Exp = v
		case "async":
			r.Async = v == "true"
		}
	}
	return r
}

func (m *Model) itemCreate(id string, p map[string]string) bool {
	if id == "" {
		return false
	}
	if old, ok := m.Items[id]; ok {
		return setItem(old, p) == old
	}
	if !validType(p["type"]) {
		return false
	}
	m.Items[id] = setItem(MItem{Id: id}, p)
	m.Parent[id] = ""
	return true
}

func (m *Model) itemDelete(id string) bool {
	if id == "" {
		return false
	}
	if _, ok := m.Items[id]; !ok {
		return true
	}
	up := m.Parent[id]
	for _, c := range m.children(id) {
		m.Parent[c] = up
	}
	delete(m.Items, id)
	delete(m.Parent, id)
	for k := range m.Rels {
		if k[0] == id || k[1] == id {
			delete(m.Rels, k)
		}
	}
	return true
}

func (m *Model) itemSet(id string, p map[string]string) bool {
	old, ok := m.Items[id]
	if !ok || !validType(p["type"]) {
		return false
	}
	m.Items[id] = setItem(old, p)
	return true
}

func (m *Model) nest(child, parent string) bool {
	_, ok1 := m.Items[child]
	_, ok2 := m.Items[parent]
	if !ok1 || !ok2 {
		return false
	}
	if child == parent {
		return true // documented as doing nothing
	}
	if m.under(parent, child) {
		return false
	}
	m.Parent[child] = parent
	return true
}

func (m *Model) free(id string) bool {
	if _, ok := m.Items[id]; !ok {
		return false
	}
	m.Parent[id] = ""
	return true
}

func (m *Model) relCreate(a, b string, p map[string]string) bool {
	_, ok1 := m.Items[a]
	_, ok2 := m.Items[b]
	if !ok1 || !ok2 {
		return false
	}
	k := [2]string{a, b}
	if old, ok := m.Rels[k]; ok {
		return setRel(old, p) == old
	}
	m.Rels[k] = setRel(MRel{From: a, To: b}, p)
	return true
}

func (m *Model) relDelete(a, b string) bool {
	delete(m.Rels, [2]string{a, b})
	return true
}

func (m *Model) relSet(a, b string, p map[string]string) bool {
	k := [2]string{a, b}
	old, ok := m.Rels[k]
	if !ok {
		return false
	}
	m.Rels[k] = setRel(old, p)
	return true
}

// relsBetween lists the relationships a query finds; "" stands for any item.
func (m *Model) relsBetween(a, b string, strict bool) map[[2]string]MRel {
	match := func(id, root string) bool {
		return root == "" || id == root || (!strict && m.under(id, root))
	}
	out := map[[2]string]MRel{}
	for k, r := range m.Rels {
		if match(k[0], a) && match(k[1], b) {
			out[k] = r
		}
	}
	return out
}

// --- reading the code under test ---

func typeName(t world.ItemType) string {
	if t == 0 {
		return ""
	}
	s := world.StringFromItemType(t)
	if s == "" {
		return fmt.Sprintf("#%d", int(t))
	}
	return s
}

func mitem(i world.Item) MItem {
	return MItem{Id: i.Id, Name: i.Name, Mech: i.Mechanism, Exp: i.Expanded, Type: typeName(i.Type), Ext: i.External}
}

func mrel(r world.Rel) MRel {
	return MRel{From: r.From.Id, To: r.To.Id, Verb: r.Verb, Mech: r.Mechanism, Exp: r.Expanded, Async: r.Async}
}

// observe reads a world completely through its public interface. It reports what is inconsistent in what
// the world says about itself; the model it returns holds what the listings said.
func observe(w world.World) (*Model, error) {
	m := &Model{Version: w.Version(), Id: w.Id(), Name: w.Name(), Expanded: w.Expanded(),
		Items: map[string]MItem{}, Parent: map[string]string{}, Rels: map[[2]string]MRel{}}
	var errs []string
	bad := func(f string, a ...any) {
		if len(errs) < 5 {
			errs = append(errs, fmt.Sprintf(f, a...))
		}
	}
	for _, it := range w.ItemList(0) {
		if _, dup := m.Items[it.Id]; dup {
			bad("item %q is listed twice", it.Id)
		}
		m.Items[it.Id] = mitem(it)
	}
	kids := map[string][]string{}
	for _, id := range sortedKeys(m.Items) {
		got, ok := w.ItemFetch(id)
		if !ok || mitem(got) != m.Items[id] {
			bad("item %q is listed as %+v but fetched as %+v (%t)", id, m.Items[id], got, ok)
		}
		p, ok := w.Parent(id)
		if !ok {
			bad("item %q has no place in the hierarchy", id)
		}
		m.Parent[id] = p
		pi, ok2 := w.ItemParent(id)
		if ok2 != ok || pi.Id != p {
			bad("parent of %q is %q (%t) by id and %q (%t) by item", id, p, ok, pi.Id, ok2)
		}
		if p != "" {
			if want, exists := m.Items[p]; !exists {
				bad("parent %q of %q does not exist", p, id)
			} else if mitem(pi) != want {
				bad("parent of %q is shown as %+v, stored as %+v", id, mitem(pi), want)
			}
		}
		kids[p] = append(kids[p], id)
	}
	for _, id := range sortedKeys(m.Items) {
		cs, ok := w.Components(id)
		cs = append([]string{}, cs...)
		sort.Strings(cs)
		if !ok || strings.Join(cs, "\x00") != strings.Join(kids[id], "\x00") {
			bad("components of %q are %q (%t), but its id is the parent of %q", id, cs, ok, kids[id])
		}
		is, ok := w.ItemComponents(id)
		var ics []string
		for _, it := range is {
			ics = append(ics, it.Id)
			if want := m.Items[it.Id]; mitem(it) != want {
				bad("component %q of %q is shown as %+v, stored as %+v", it.Id, id, mitem(it), want)
			}
		}
		sort.Strings(ics)
		if !ok || strings.Join(ics, "\x00") != strings.Join(kids[id], "\x00") {
			bad("component items of %q are %q (%t), but its id is the parent of %q", id, ics, ok, kids[id])
		}
	}
	for _, id := range sortedKeys(m.Items) {
		seen := map[string]bool{id: true}
		for p := m.Parent[id]; p != ""; p = m.Parent[p] {
			if seen[p] {
				bad("item %q is its own ancestor", id)
				break
			}
			seen[p] = true
		}
	}
	for _, r := range w.RelList(0) {
		k := [2]string{r.From.Id, r.To.Id}
		if _, dup := m.Rels[k]; dup {
			bad("relationship %q is listed twice", k)
		}
		m.Rels[k] = mrel(r)
		for _, end := range []world.Item{r.From, r.To} {
			if want, ok := m.Items[end.Id]; !ok {
				bad("relationship %q names item %q, which does not exist", k, end.Id)
			} else if mitem(end) != want {
				bad("relationship %q shows %+v, stored %+v", k, mitem(end), want)
			}
		}
	}
	for k, r := range m.Rels {
		got := w.RelFetch(k[0], k[1], true)
		if len(got) != 1 || mrel(got[0]) != r {
			bad("relationship %q is listed as %+v but fetched as %+v", k, r, got)
		}
	}
	if len(errs) > 0 {
		return m, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	return m, nil
}

// diff describes the first differences between two models; "" if there are none.
func diff(want, got *Model) string {
	var out []string
	add := func(f string, a ...any) {
		if len(out) < 4 {
			out = append(out, fmt.Sprintf(f, a...))
		}
	}
	if want.Version != got.Version || want.Id != got.Id || want.Name != got.Name || want.Expanded != got.Expanded {
		add("world info: want %d %q %q %q, got %d %q %q %q", want.Version, want.Id, want.Name, want.Expanded, got.Version, got.Id, got.Name, got.Expanded)
	}
	for _, id := range sortedKeys(want.Items) {
		g, ok := got.Items[id]
		if !ok {
			add("item %q is missing", id)
			continue
		}
		if g != want.Items[id] {
			add("item %q: want %+v, got %+v", id, want.Items[id], g)
		}
		if want.Parent[id] != got.Parent[id] {
			add("parent of %q: want %q, got %q", id, want.Parent[id], got.Parent[id])
		}
	}
	for _, id := range sortedKeys(got.Items) {
		if _, ok := want.Items[id]; !ok {
			add("item %q should not exist", id)
		}
	}
	for _, k := range want.relKeys() {
		g, ok := got.Rels[k]
		if !ok {
			add("relationship %q is missing", k)
		} else if g != want.Rels[k] {
			add("relationship %q: want %+v, got %+v", k, want.Rels[k], g)
		}
	}
	for _, k := range got.relKeys() {
		if _, ok := want.Rels[k]; !ok {
			add("relationship %q should not exist", k)
		}
	}
	return strings.Join(out, "; ")
}

// sameAs observes a world and compares it with the model.
func sameAs(want *Model, w world.World) error {
	got, err := observe(w)
	if err != nil {
		return err
	}
	if d := diff(want, got); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

func relSetDiff(want map[[2]string]MRel, got []world.Rel) string {
	seen := map[[2]string]bool{}
	for _, r := range got {
		k := [2]string{r.From.Id, r.To.Id}
		if seen[k] {
			return fmt.Sprintf("relationship %q twice", k)
		}
		seen[k] = true
		w, ok := want[k]
		if !ok {
			return fmt.Sprintf("relationship %q should not be found", k)
		}
		if w != mrel(r) {
			return fmt.Sprintf("relationship %q: want %+v, got %+v", k, w, mrel(r))
		}
	}
	if len(seen) != len(want) {
		for k := range want {
			if !seen[k] {
				return fmt.Sprintf("relationship %q is not found", k)
			}
		}
	}
	return ""
}

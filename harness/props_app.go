package main

// Properties of commands and sessions: C08, C09, C12, C13, C21.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

var sessionMix = cmdMix{mutate: 60, query: 40, refuse: 12, flags: true}
var mutateMix = cmdMix{mutate: 92, query: 8, refuse: 8}

// undoCase is a world, made through the API, and the commands run on it.
type undoCase struct {
	Setup []Op  `json:"setup,omitempty"`
	Cmds  []Cmd `json:"cmds"`
	Reuse bool  `json:"reuse,omitempty"` // run the same commands once more at the end, on what the world is then
}

func genUndoCase(t *rapid.T) undoCase {
	c := undoCase{}
	g := &cmdGen{m: newModel("w"), mix: mutateMix}
	n := 0
	switch weighted(t, "size", 65, 30, 5) {
	case 0:
		g.ids = genIds(t, 2, 5)
		n = size(t, "n", 1, 10, 40)
	case 1:
		g.ids = genIds(t, 4, 9)
		n = size(t, "n", 5, 30, 80)
	default:
		g.ids = genIds(t, 8, 20)
		n = size(t, "n", 20, 60, 150)
	}
	if chance(t, "setup", 75) {
		og := &opGen{ids: g.ids, m: g.m, mix: mix{create: 25, set: 6, del: 2, nest: 30, free: 3, rcreate: 30, rset: 6, rdel: 2}}
		k := rapid.IntRange(1, 4*len(g.ids)).Draw(t, "setupsize")
		for i := 0; i < k; i++ {
			c.Setup = append(c.Setup, og.draw(t))
		}
	}
	for i := 0; i < n; i++ {
		c.Cmds = append(c.Cmds, g.draw(t))
	}
	c.Reuse = chance(t, "reuse", 40)
	return c
}

func runC08(c undoCase, ctx *Ctx) error {
	w := build("w", c.Setup)
	m := modelOf("w", c.Setup)
	if err := sameAs(m, w); err != nil {
		return violf("setting up: %w", err)
	}
	type step struct {
		line   string
		cmd    app.Command
		before *Model
		after  *Model
	}
	var done []step
	var all []app.Command
	for i, cm := range c.Cmds {
		line := cm.line()
		cmd, err := command(line)
		if err != nil {
			return err
		}
		all = append(all, cmd)
		fail := func(what string, err error) error { return violf("command %d, %q: %s: %w", i+1, line, what, err) }
		before := m.clone()
		want := m.answer(cm)
		changed := diff(before, m) != ""
		_, err = cmd.Execute(w)
		if (err == nil) != want.OK {
			return fail("executing", fmt.Errorf("error is %v, should be one: %t", err, !want.OK))
		}
		if err := sameAs(m, w); err != nil {
			return fail("executing", err)
		}
		if !want.OK {
			ctx.Hit("refused " + cm.V)
			// Nothing to take back, and taking it back changes nothing.
			cmd.Undo(w)
			if err := sameAs(before, w); err != nil {
				return fail("undoing what was refused", err)
			}
			continue
		}
		if changed {
			ctx.NonTrivial()
			ctx.Hit("changed by " + cm.R + " " + cm.V)
			if cm.R+cm.V == "itemdelete" && len(before.children(cm.A)) > 0 && len(before.relsBetween(cm.A, "", true))+len(before.relsBetween("", cm.A, true)) > 0 {
				ctx.Hit("deleted item with components and relationships")
			}
		} else {
			ctx.Hit("no change")
		}
		if err := cmd.Undo(w); err != nil {
			return fail("undoing", err)
		}
		if err := sameAs(before, w); err != nil {
			return fail("undoing", err)
		}
		if _, err := cmd.Execute(w); err != nil {
			return fail("executing again", err)
		}
		if err := sameAs(m, w); err != nil {
			return fail("executing again", err)
		}
		done = append(done, step{line, cmd, before, m.clone()})
	}
	for i := len(done) - 1; i >= 0; i-- {
		s := done[i]
		if err := s.cmd.Undo(w); err != nil {
			return violf("undoing everything: %q: %w", s.line, err)
		}
		if len(s.before.Items) <= 12 || i%5 == 0 {
			if err := sameAs(s.before, w); err != nil {
				return violf("undoing everything: %q: %w", s.line, err)
			}
		}
	}
	for i, s := range done {
		if _, err := s.cmd.Execute(w); err != nil {
			return violf("executing everything again: %q: %w", s.line, err)
		}
		if len(s.before.Items) <= 12 || i%5 == 0 || i == len(done)-1 {
			if err := sameAs(s.after, w); err != nil {
				return violf("executing everything again: %q: %w", s.line, err)
			}
		}
	}
	if !c.Reuse {
		return nil
	}
	// The same commands meet another world now: what they did before must not matter.
	for i, cm := range c.Cmds {
		fail := func(what string, err error) error {
			return violf("command %d, %q, used again on a changed world: %s: %w", i+1, cm.line(), what, err)
		}
		before := m.clone()
		want := m.answer(cm)
		_, err := all[i].Execute(w)
		if (err == nil) != want.OK {
			return fail("executing", fmt.Errorf("error is %v, should be one: %t", err, !want.OK))
		}
		if err := sameAs(m, w); err != nil {
			return fail("executing", err)
		}
		if diff(before, m) != "" {
			ctx.Hit("used again on a changed world")
		}
		if err := all[i].Undo(w); err != nil && want.OK {
			return fail("undoing", err)
		}
		if err := sameAs(before, w); err != nil {
			return fail("undoing", err)
		}
		if want.OK {
			if _, err := all[i].Execute(w); err != nil {
				return fail("executing again", err)
			}
			if err := sameAs(m, w); err != nil {
				return fail("executing again", err)
			}
		}
	}
	return nil
}

// Step is one step of a session.
type Step struct {
	K    string `json:"k"` // exec, text, undo, redo
	Cmd  *Cmd   `json:"cmd,omitempty"`
	Text string `json:"text,omitempty"`
}

type stepsCase struct {
	Setup []Op   `json:"setup,omitempty"`
	Steps []Step `json:"steps"`
}

// notCommands are lines that are no commands.
var notCommands = []string{"", " ", "item", "rel a", "item a b", "item create", "frob x", "item a name", "rel a b bogus=1", "200 ok", "undo", "redo",
	"world x", "nest a b", "nest in a", "free", "item a type=bogus", "item clear a", "\x00", "item \"a", "item a name=", "in? a", "tree{nil::[]}",
	"item \"a\"\n$$$$\n200 ok ", "exists a", "item a; item b", "item create create", "rel create a b async=yes", "item list -1", "-- strict", "?"}

// mention gives the ids a command is about.
func mention(c Cmd) []string { return append([]string{c.A, c.B}, c.L...) }

func genStepsCase(t *rapid.T, setup bool) stepsCase {
	c := stepsCase{}
	g := &cmdGen{m: newModel("w"), mix: cmdMix{mutate: 85, query: 15, refuse: 12}}
	n := 0
	steps := []int{55, 22, 14, 9}
	switch weighted(t, "size", 60, 33, 6, 1) {
	case 0:
		g.ids = genIds(t, 2, 4)
		n = size(t, "n", 2, 14, 40)
	case 1:
		g.ids = genIds(t, 3, 7)
		n = size(t, "n", 10, 40, 80)
	case 2:
		g.ids = genIds(t, 6, 14)
		n = size(t, "n", 40, 120, 300)
	default: // a long history
		g.ids = genIds(t, 3, 8)
		n = size(t, "n", 80, 300, 1100)
		steps = []int{92, 3, 3, 2}
	}
	if setup && chance(t, "setup", 50) {
		og := &opGen{ids: g.ids, m: g.m, mix: mix{create: 25, set: 6, del: 2, nest: 30, free: 3, rcreate: 30, rset: 6, rdel: 2}}
		k := rapid.IntRange(1, 3*len(g.ids)).Draw(t, "setupsize")
		for i := 0; i < k; i++ {
			c.Setup = append(c.Setup, og.draw(t))
		}
	}
	// The generator follows the session as it should go.
	states := []*Model{g.m}
	at := 0
	if len(c.Setup) == 0 && chance(t, "prefill", 75) {
		for i, id := range g.ids {
			cs := []Cmd{{R: "item", V: "create", A: id, N: -1}}
			if i > 0 && chance(t, "nested", 40) {
				cs = append(cs, Cmd{R: "item", V: "nest", L: []string{id}, B: g.ids[uniform(t, "under", i)], N: -1})
			}
			for j := range cs {
				next := states[at].clone()
				next.answer(cs[j])
				states = append(states, next)
				at++
				c.Steps = append(c.Steps, Step{K: "exec", Cmd: &cs[j]})
			}
		}
		n += len(c.Steps)
	}
	for len(c.Steps) < n {
		g.m = states[at].clone()
		switch weighted(t, "step", steps...) {
		case 0:
			before := g.m.clone()
			cm := g.draw(t)
			g.m = before
			c.Steps = append(c.Steps, Step{K: "exec", Cmd: &cm})
			next := states[at].clone()
			if next.answer(cm).OK {
				states = append(states[:at+1:at+1], next)
				at++
			}
		case 1:
			k := 1
			if chance(t, "run", 30) {
				k = rapid.IntRange(2, 6).Draw(t, "times")
			}
			for ; k > 0; k-- {
				c.Steps = append(c.Steps, Step{K: "undo"})
				if at > 0 {
					at--
				}
			}
		case 2:
			k := 1
			if chance(t, "run", 30) {
				k = rapid.IntRange(2, 6).Draw(t, "times")
			}
			for ; k > 0; k-- {
				c.Steps = append(c.Steps, Step{K: "redo"})
				if at < len(states)-1 {
					at++
				}
			}
		case 3:
			c.Steps = append(c.Steps, Step{K: "text", Text: pick(t, "text", notCommands)})
		}
	}
	return c
}

func runC09(c stepsCase, ctx *Ctx) error {
	w := build("w", c.Setup)
	a, err := app.NewApp(w)
	if err != nil {
		return err
	}
	states := []*Model{modelOf("w", c.Setup)} // states[i] is the world after i commands of lines
	var lines []string
	at := 0
	overwritten, undone := false, false
	for i, s := range c.Steps {
		where := func(err error) error { return violf("step %d (%s %s): %w", i+1, s.K, s.Text, err) }
		switch s.K {
		case "exec":
			line := s.Cmd.line()
			s.Text = line
			next := states[at].clone()
			want := next.answer(*s.Cmd)
			got := a.Exec(line)
			if err := judge(want, got, next); err != nil {
				return where(err)
			}
			if want.OK {
				if at < len(lines) {
					overwritten = true
					ctx.Hit("overwrote undone commands")
				}
				lines = append(lines[:at:at], line)
				states = append(states[:at+1:at+1], next)
				at++
			} else {
				ctx.Hit("failed command")
				if at < len(lines) {
					ctx.Hit("failed command with something to redo")
				}
			}
		case "text":
			_, code, _, err := splitAnswer(a.Exec(s.Text))
			if err != nil || code == 200 {
				return where(fmt.Errorf("answered %d (%v)", code, err))
			}
		case "undo":
			err, n, ok := undo(a)
			if !ok {
				return nil // this tree gives no access to undo
			}
			if err != nil {
				return where(err)
			}
			if at > 0 {
				undone = true
				at--
				if n != len(lines)-at {
					return where(fmt.Errorf("%d commands said to be redoable, should be %d", n, len(lines)-at))
				}
			} else {
				ctx.Hit("undo at the start")
			}
		case "redo":
			err, n, ok := redo(a)
			if !ok {
				return nil
			}
			if err != nil {
				return where(err)
			}
			if at < len(lines) {
				at++
				ctx.Hit("redone")
				if n != len(lines)-at {
					return where(fmt.Errorf("%d commands said to be redoable, should be %d", n, len(lines)-at))
				}
			} else {
				ctx.Hit("redo at the end")
			}
		}
		if a.CanUndo() != (at > 0) {
			return where(fmt.Errorf("CanUndo is %t with %d executed commands", a.CanUndo(), at))
		}
		if a.CanRedo() != (at < len(lines)) {
			return where(fmt.Errorf("CanRedo is %t with %d undone commands", a.CanRedo(), len(lines)-at))
		}
		h := a.History()
		if len(h) != at {
			return where(fmt.Errorf("history has %d commands, should be %d", len(h), at))
		}
		for j, cmd := range h {
			if cmd.String() != lines[j] {
				return where(fmt.Errorf("history entry %d is %q, should be %q", j+1, cmd, lines[j]))
			}
		}
		if err := sameAs(states[at], a.World()); err != nil {
			return where(err)
		}
	}
	if overwritten && undone {
		ctx.NonTrivial()
	}
	// The commands of the history on the initial world make this world.
	w2 := build("w", c.Setup)
	for _, cmd := range a.History() {
		again, err := command(cmd.String())
		if err != nil {
			return err
		}
		again.Execute(w2)
	}
	if err := sameAs(states[at], w2); err != nil {
		return violf("running the history on the initial world: %w", err)
	}
	return nil
}

// --- C12 ---

// Any is a text of any bytes; where it is no UTF-8 its JSON form is hexadecimal.
type Any string

func (a Any) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(a)) {
		return json.Marshal(string(a))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(a))})
}

func (a *Any) UnmarshalJSON(b []byte) error {
	var h map[string]string
	if json.Unmarshal(b, &h) == nil {
		d, err := hex.DecodeString(h["hex"])
		*a = Any(d)
		return err
	}
	return json.Unmarshal(b, (*string)(a))
}

type linesCase struct {
	Lines []Any `json:"lines"`
}

func genNoise(t *rapid.T, ids []string, last string) string {
	switch weighted(t, "noise", 20, 25, 20, 12, 8, 8, 5, 2) {
	case 0:
		return pick(t, "text", notCommands)
	case 1: // a command with something changed
		return mutateText(t, last)
	case 2: // words of the syntax in any order
		return wordSalad(t, ids)
	case 3: // any characters
		return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
	case 4:
		return rapid.StringN(0, 30, -1).Draw(t, "unicode")
	case 5: // text of other kinds
		w := build("w", []Op{{K: "create", A: pick(t, "a", ids)}, {K: "create", A: pick(t, "b", ids)}, {K: "nest", A: ids[0], B: ids[len(ids)-1]}, {K: "rcreate", A: ids[0], B: ids[len(ids)-1]}})
		s := pick(t, "kind", []string{w.String(), w.String() + "\n$$$$\n200 ok ", "200 ok \"" + pick(t, "c", ids) + "\"", `404 error "Not found: x" errors=["[y]"]`, "tree{nil::[tree{item \"a\"::[]}]}", "a b \"c d\" $$$$ 200 ok"})
		if chance(t, "mutate", 50) {
			s = mutateText(t, s)
		}
		return s
	case 6: // deep
		n := rapid.IntRange(1, 60).Draw(t, "depth")
		return strings.Repeat(`tree{item "a"::[`, n) + strings.Repeat("]}", rapid.IntRange(0, n).Draw(t, "closed"))
	default: // long
		return strings.Repeat(pick(t, "rep", []string{"item ", "a ", "\"", "\"\" ", "free a ", " ", "\n", "item a name=x ", "--strict ", "(", "é"}), size(t, "n", 100, 3000, 4200))
	}
}

var saladWords = append([]string{"item", "items", "rel", "rels", "world", "create", "set", "clear", "delete", "fetch", "list", "exists", "in", "nest", "free",
	"item?", "rel?", "in?", "to?", "from?", "name=x", "name=\"x y\"", "name", "type=person", "type=bogus", "type", "external=true", "external=maybe", "verb=x", "verb",
	"mechanism=m", "mechanism", "expanded=\"\"", "expanded", "async=true", "async", "--strict", "-strict", "--verbose", "--ids", "--bogus", "0", "3", "-1", "99999999999999999999", "\"\"", "\"a\"",
	"\"a b\"", "a", "b", "c", "=", "\"", "$$", "$$$$", "200", "ok", "error", "nil", "tree{nil::[]}", "::[", "]", "name=", "=x", "name =x", "name= x", "limit=3", "endworld"}, trickyIds...)

func wordSalad(t *rapid.T, ids []string) string {
	n := rapid.IntRange(1, 7).Draw(t, "words")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(t, "gap", []string{" ", " ", " ", "  ", "\n", "\t", ""}))
		}
		if chance(t, "id", 30) {
			b.WriteString((&speller{}).id(pick(t, "which", ids)))
		} else {
			b.WriteString(pick(t, "word", saladWords))
		}
	}
	return b.String()
}

// wordsOf splits a line at blanks outside of quotes.
func wordsOf(s string) []string {
	quoted := false
	return strings.FieldsFunc(s, func(r rune) bool {
		if r == '"' {
			quoted = !quoted
		}
		return !quoted && (r == ' ' || r == '\t' || r == '\n' || r == '\r')
	})
}

// partSalad puts together the parts of a command, each as often as it likes.
func partSalad(t *rapid.T, ids []string) string {
	times := func(name string) int { return weighted(t, name, 30, 40, 20, 10) }
	var ws []string
	add := func(n int, f func() string) {
		for ; n > 0; n-- {
			ws = append(ws, f())
		}
	}
	word := func(name string, of ...string) func() string {
		return func() string { return pick(t, name, of) }
	}
	id := func() string {
		if chance(t, "reserved", 12) {
			return pick(t, "reserved word", sortedKeys(reserved))
		}
		return (&speller{}).id(pick(t, "which", ids))
	}
	add(weighted(t, "resources", 10, 85, 5), word("resource", "item", "rel", "item", "rel", "items", "rels", "world", "item?", "rel?", "in?", "to?", "from?", "nest", "free"))
	add(weighted(t, "verbs", 40, 55, 5), word("verb", "create", "set", "clear", "delete", "fetch", "list", "exists", "clear"))
	add(times("ids"), id)
	add(weighted(t, "middle", 75, 22, 3), word("in", "in"))
	add(weighted(t, "more ids", 60, 25, 10, 5), id)
	add(weighted(t, "keys", 55, 25, 15, 5), word("key", "name", "expanded", "external", "type", "mechanism", "verb", "async", "expanded", "mechanism"))
	add(weighted(t, "values", 55, 25, 15, 5), word("value", "name=x", "expanded=\"a b\"", "external=true", "type=code", "mechanism=x", "verb=\"in\"", "async=false", "limit=3", "name=", "=x"))
	add(weighted(t, "numbers", 85, 15), word("number", "3", "0", "12", "-1", "limit", "3 4", "3x"))
	add(weighted(t, "flags", 70, 20, 10), word("flag", "strict", "verbose", "ids", "--strict", "--ids"))
	return strings.Join(ws, " ")
}

// mutateText makes a small change to a text.
func mutateText(t *rapid.T, s string) string {
	b := []byte(s)
	times := 1 + weighted(t, "times", 70, 20, 10)
	for ; times > 0; times-- {
		at := 0
		if len(b) > 0 {
			at = uniform(t, "at", len(b))
		}
		switch weighted(t, "how", 20, 20, 15, 15, 10, 10, 10, 25) {
		case 7: // leave out, double, exchange or put in words
			ws := wordsOf(string(b))
			for k := 1 + weighted(t, "changed words", 60, 30, 10); k > 0 && len(ws) > 0; k-- {
				i := uniform(t, "i", len(ws))
				switch weighted(t, "change", 50, 10, 20, 20) {
				case 0:
					ws = append(append([]string{}, ws[:i]...), ws[i+1:]...)
				case 1:
					ws = append(append(append([]string{}, ws[:i]...), ws[i]), ws[i:]...)
				case 2:
					ws[i] = pick(t, "word", saladWords)
				default:
					ws = append(append(append([]string{}, ws[:i]...), pick(t, "word", saladWords)), ws[i:]...)
				}
			}
			b = []byte(strings.Join(ws, " "))
		case 0: // cut off
			b = b[:at]
		case 1: // leave out
			if len(b) > 0 {
				n := min(len(b)-at, 1+uniform(t, "n", 8))
				b = append(append([]byte{}, b[:at]...), b[at+n:]...)
			}
		case 2: // put in
			ins := pick(t, "ins", []string{" ", "\"", "x", "=", "\n", "?", "-", "$$", "]", "}", "é", "\xff", "\x00", "'", "\\", "{", "|", "/", "<", "item", " in ", "name=x", "::", "endworld$$", " s"})
			b = append(append(append([]byte{}, b[:at]...), ins...), b[at:]...)
		case 3: // replace
			if len(b) > 0 {
				b = append([]byte{}, b...)
				b[at] = pick(t, "by", []byte(" \"=?-$]}x'\\{|/\x00\xff\n0A"))
			}
		case 4: // twice
			n := min(len(b)-at, 1+uniform(t, "n", 20))
			b = append(append(append([]byte{}, b[:at+n]...), b[at:at+n]...), b[at+n:]...)
		case 5: // add
			b = append(append([]byte{}, b...), pick(t, "tail", []string{" x", " \"x y\"", " name=x", " --strict", "\"", " $$$$", " 200 ok", " item a", "\x00", " --bogus", " verb=x", "\n"})...)
		case 6: // swap two words
			ws := strings.Split(string(b), " ")
			if len(ws) > 1 {
				i := uniform(t, "i", len(ws)-1)
				ws[i], ws[i+1] = ws[i+1], ws[i]
				b = []byte(strings.Join(ws, " "))
			}
		}
	}
	return string(b)
}

func genLinesCase(t *rapid.T) linesCase {
	var c linesCase
	g := &cmdGen{m: newModel("w"), mix: sessionMix}
	g.ids = genIds(t, 2, 6)
	n := size(t, "n", 1, 20, 60)
	last := "item a name=x"
	add := func(s string) {
		if len(s) > 20000 {
			s = s[:20000]
		}
		c.Lines = append(c.Lines, Any(s))
	}
	for i := 0; i < n; i++ {
		if chance(t, "noise?", 55) {
			add(genNoise(t, g.ids, last))
		}
		last = g.draw(t).line()
		add(last)
	}
	if chance(t, "end", 50) {
		add(genNoise(t, g.ids, last))
	}
	return c
}

// readable checks that an answer is a response or a status with a numeric code, by the grammar itself.
func readable(ans string) (int, error) {
	_, code, _, err := splitAnswer(ans)
	if err != nil {
		return 0, err
	}
	p, err := grammar.Parse(ans)
	if err != nil {
		return code, fmt.Errorf("the answer %q is not readable: %v", clip(ans), err)
	}
	if p.StmtType != "Response" && p.StmtType != "Status" {
		return code, fmt.Errorf("the answer %q reads as %s", clip(ans), p.StmtType)
	}
	if p.Response.Status.Code != code {
		return code, fmt.Errorf("the answer %q reads as code %d", clip(ans), p.Response.Status.Code)
	}
	return code, nil
}

// sortedLines puts the lines of an answer in order: listings come in any.
func sortedLines(s string) string {
	obj, _, _, err := splitAnswer(s)
	if err != nil || strings.HasPrefix(obj, "$$world") || !strings.Contains(obj, "\n") {
		return s
	}
	ls := strings.Split(obj, "\n")
	sortStrings(ls)
	return strings.Join(ls, "\n") + s[len(obj):]
}

func runC12(c linesCase, ctx *Ctx) error {
	a, twin := newApp("w"), newApp("w")
	noise := 0
	for i, raw := range c.Lines {
		line := string(raw)
		where := func(err error) error { return violf("line %d, %q: %w", i+1, clip(line), err) }
		before, err := observe(a.World())
		if err != nil {
			return where(err)
		}
		hist := len(a.History())
		ans := a.Exec(line)
		code, err := readable(ans)
		if err != nil {
			return where(err)
		}
		_, v := refRead(line)
		switch {
		case v == reject && code != 400:
			return where(fmt.Errorf("is not a command and answered %q", clip(ans)))
		case v == accept && code == 400:
			return where(fmt.Errorf("is a command and answered %q", clip(ans)))
		}
		if code == 400 {
			if v == reject {
				noise++
				ctx.Hit("rejected line")
			}
			if err := sameAs(before, a.World()); err != nil {
				return where(fmt.Errorf("changed the world: %v", err))
			}
			if n := len(a.History()); n != hist {
				return where(fmt.Errorf("changed the history from %d to %d commands", hist, n))
			}
			continue
		}
		ctx.Hit("command line")
		other := twin.Exec(line)
		if limited(line) {
			// Which objects a limited listing shows is not specified.
			if _, code2, _, _ := splitAnswer(other); code2 != code {
				return where(fmt.Errorf("answered %q, and %q in a session without the rejected lines", clip(ans), clip(other)))
			}
		} else if w1, w2 := worldOf(ans), worldOf(other); w1 != nil && w2 != nil {
			if d := diff(w2, w1); d != "" {
				return where(fmt.Errorf("answered with another world than a session without the rejected lines: %s", d))
			}
		} else if code != 450 && sortedLines(ans) != sortedLines(other) {
			if c, v := refRead(line); v != accept || c.V != "fetch" { // a loose fetch may show any match
				return where(fmt.Errorf("answered %q, and %q in a session without the rejected lines", clip(ans), clip(other)))
			}
		} else if code == 450 {
			if _, code2, _, _ := splitAnswer(other); code2 != code {
				return where(fmt.Errorf("answered %q, and %q in a session without the rejected lines", clip(ans), clip(other)))
			}
		}
	}
	if noise > 0 && len(a.History()) > 0 {
		ctx.NonTrivial()
	}
	m, err := observe(twin.World())
	if err != nil {
		return err
	}
	if err := sameAs(m, a.World()); err != nil {
		return violf("world with and without the rejected lines: %w", err)
	}
	if h1, h2 := historyText(a), historyText(twin); h1 != h2 {
		return violf("history with and without the rejected lines: %q and %q", clip(h1), clip(h2))
	}
	return nil
}

func limited(line string) bool {
	c, v := refRead(line)
	return v != accept || (c.V == "list" && c.N > 0)
}

func historyText(a app.App) string {
	var out []string
	for _, c := range a.History() {
		out = append(out, c.String())
	}
	return strings.Join(out, "\x1e")
}

// worldOf reads the world in an answer, if it is one.
func worldOf(ans string) *Model {
	obj, _, _, err := splitAnswer(ans)
	if err != nil || !strings.HasPrefix(obj, "$$world") {
		return nil
	}
	w, err := world.FromString(obj)
	if err != nil {
		return nil
	}
	m, err := observe(w)
	if err != nil {
		return nil
	}
	return m
}

// --- C13, C21 ---

type cmdsCase struct {
	Cmds []Cmd `json:"cmds"`
}

func runC13(c cmdsCase, ctx *Ctx) error {
	a := newApp("w")
	m := newModel("w")
	kinds := map[string]bool{}
	for i, cm := range c.Cmds {
		line := cm.line()
		where := func(err error) error { return violf("command %d, %q: %w", i+1, line, err) }
		want := m.answer(cm)
		got := a.Exec(line)
		if err := judge(want, got, m); err != nil {
			return where(err)
		}
		if _, err := readable(got); err != nil {
			return where(err)
		}
		if i == len(c.Cmds)-1 || len(m.Items) <= 12 || i%7 == 0 {
			if err := sameAs(m, a.World()); err != nil {
				return where(err)
			}
		}
		if !want.OK {
			ctx.Hit("refused " + cm.R + " " + cm.V)
		} else {
			ctx.Hit(cm.R + " " + cm.V)
			switch want.Kind {
			case "items", "rels":
				if want.Limit > 1 {
					kinds["list"] = true
					ctx.Hit("listing of more than one")
				}
				if cm.N > 0 && want.Limit == cm.N {
					ctx.Hit("limit reached")
				}
			case "bool":
				if want.Bool {
					ctx.Hit("yes to " + cm.V)
				}
			}
		}
		if mutates(cm) && want.OK {
			kinds["change"] = true
		}
	}
	if kinds["list"] && kinds["change"] {
		ctx.NonTrivial()
	}
	return nil
}

func runC21(c stepsCase, ctx *Ctx) error {
	a := newApp("w")
	var lines []string
	at := 0
	for i, s := range c.Steps {
		switch s.K {
		case "exec":
			line := s.Cmd.line()
			_, code, _, err := splitAnswer(a.Exec(line))
			if err != nil {
				return violf("step %d: %w", i+1, err)
			}
			if code == 200 {
				lines = append(lines[:at:at], line)
				at++
			}
		case "text":
			if _, code, _, err := splitAnswer(a.Exec(s.Text)); err != nil || code == 200 {
				return violf("step %d: %q answered %d (%v)", i+1, s.Text, code, err)
			}
		case "undo":
			if _, _, ok := undo(a); ok && at > 0 {
				at--
			}
		case "redo":
			if _, _, ok := redo(a); ok && at < len(lines) {
				at++
			}
		}
	}
	lines = lines[:at]
	h := a.History()
	if len(h) != len(lines) {
		return violf("the history has %d commands, %d were executed", len(h), len(lines))
	}
	for i, cmd := range h {
		if cmd.String() != lines[i] {
			return violf("history entry %d is %q, the line sent was %q", i+1, cmd.String(), lines[i])
		}
	}
	m, err := observe(a.World())
	if err != nil {
		return err
	}
	b := newApp("w")
	for _, cmd := range h {
		ans := b.Exec(cmd.String())
		if _, code, _, err := splitAnswer(ans); err != nil || code != 200 {
			return violf("replaying %q: answered %q", cmd, clip(ans))
		}
	}
	if err := sameAs(m, b.World()); err != nil {
		return violf("replaying the history: %w", err)
	}
	if !world.WorldEqual(a.World(), b.World()) {
		return violf("the replayed world does not compare equal")
	}
	if h1, h2 := historyText(a), historyText(b); h1 != h2 {
		return violf("the replayed history is %q, the original %q", clip(h2), clip(h1))
	}
	if len(m.Items) > 1 && len(m.Rels) > 0 && m.depth() > 1 {
		ctx.NonTrivial()
	}
	if len(lines) > 20 {
		ctx.Hit("history over 20")
	}
	return nil
}

func init() {
	register(Prop{
		ID: "C08", Quick: 80000, Thorough: 500000,
		Rule: "A world built by a random history and a sequence of command lines on it. Each command is executed, undone and executed again with the whole world compared with the model each time; then all are undone in reverse and executed again. Non-trivial when some command changed the world.",
	}, genUndoCase, runC08)
	register(Prop{
		ID: "C09", Quick: 80000, Thorough: 500000,
		Rule:        "A session of commands, failing commands, lines that are no commands, undos and redos. After every step the history, CanUndo, CanRedo and the world are compared with a list of states. Non-trivial when something was undone and then overwritten by a new command.",
		Assumptions: []string{"undo and redo are reached through build-tagged exports; without them only execution and the history are checked"},
	}, func(t *rapid.T) stepsCase { return genStepsCase(t, true) }, runC09)
	register(Prop{
		ID: "C12", Quick: 9000, Thorough: 150000,
		Rule:        "A session of command lines mixed with other input: mutated commands, words of the syntax in any order, arbitrary bytes and Unicode, world and response texts, deep and long text. Every answer must be readable with a numeric code; a line the reference reader rejects must be answered 400 and change nothing; a twin session without these lines must answer the same. Non-trivial when at least one line was rejected between commands.",
		Assumptions: []string{"lines the documentation leaves open (such as words run together) may be taken either way"},
	}, genLinesCase, runC12)
	register(Prop{
		ID: "C13", Quick: 60000, Thorough: 400000,
		Rule: "A session of commands of all kinds in varied spelling; every answer is read by the reference reader and compared with the model's answer, and the world with the model's world. Non-trivial when commands changed the world and a listing showed more than one object.",
	}, func(t *rapid.T) cmdsCase { return cmdsCase{genCmds(t, sessionMix)} }, runC13)
	register(Prop{
		ID: "C21", Quick: 100000, Thorough: 600000,
		Rule: "A session with refused commands, undos and redos; the text of its history is sent to a fresh session, and world and history are compared. Non-trivial when the world has a relationship and a nested item.",
	}, func(t *rapid.T) stepsCase { return genStepsCase(t, false) }, runC21)
}

package main

// C17: error values.

import (
	stderrors "errors"
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
	"pgregory.net/rapid"
)

// ErrStep derives a new error value from an earlier one.
type ErrStep struct {
	K    string      `json:"k"` // new, code, desc, data, clear, cause, join
	From int         `json:"from"`
	Code int         `json:"code,omitempty"`
	Text Any         `json:"text,omitempty"`
	Data [][2]string `json:"data,omitempty"`
	Errs []int       `json:"errs,omitempty"` // -1 nil, -2 and below plain errors, from 0 earlier values
}

type errCase struct {
	Steps []ErrStep `json:"steps"`
}

var knownCodes = map[int]string{
	400: "Invalid input", 404: "Not found", 409: "Conflict or impossible state", 450: "Error while executing command",
	500: "An unknown error occurred", 502: "Issue with World state sync detected", 600: "Multiple errors",
}

func genErrText(t *rapid.T) Any {
	if chance(t, "odd", 15) {
		return Any(pick(t, "oddtext", []string{"\"", "a\"b", "\n", "a\nb", "é", "{}", "\\", "'", "|", "\t", "\x00", "a/b", "?", "<x>", "\"\n$$$$\n200 ok", "日本", "\"\" errors=[]", "`", "\xff", ": ", ":", "x: y"}))
	}
	return Any(genText(t))
}

func genErrSteps(t *rapid.T, n int) []ErrStep {
	var out []ErrStep
	for i := 0; i < n; i++ {
		s := ErrStep{K: "new"}
		if i > 0 {
			s.K = []string{"new", "code", "desc", "data", "clear", "cause", "join"}[weighted(t, "k", 10, 15, 12, 25, 6, 25, 7)]
			// Often from the same value twice, so that several come from one.
			s.From = i - 1
			if chance(t, "branch", 50) {
				s.From = uniform(t, "from", i)
			}
		}
		switch s.K {
		case "new", "desc":
			s.Text = genErrText(t)
		case "code":
			s.Code = pick(t, "code", []int{400, 404, 409, 450, 500, 502, 600, 0, 1, 7, 42, 99, 200, 401, 405, 499, 501, 599, 601, 999, 1000, 123456})
		case "data":
			k := weighted(t, "pairs", 10, 50, 25, 15)
			for j := 0; j < k; j++ {
				s.Data = append(s.Data, [2]string{pick(t, "key", []string{"id", "input", "k", "", "id"}), genText(t)})
			}
		case "cause", "join":
			k := weighted(t, "errs", 10, 45, 25, 20)
			for j := 0; j < k; j++ {
				e := -1
				switch weighted(t, "which", 45, 35, 20) {
				case 0:
					e = uniform(t, "earlier", i)
				case 1:
					e = -2 - uniform(t, "plain", 7)
				}
				s.Errs = append(s.Errs, e)
			}
		}
		out = append(out, s)
	}
	return out
}

func genErrCase(t *rapid.T) errCase {
	return errCase{genErrSteps(t, size(t, "n", 2, 25, 70))}
}

// errModel is what an error value should be.
type errModel struct {
	code      int
	desc, msg string
	data      []errors.KvPair
	causes    []error     // the very values put in
	models    []*errModel // of the causes that are such values
	plain     []string    // text of the plain ones
}

type errPool struct {
	vals   []errors.TopolithError
	models []*errModel
	plain  []error
}

// listError cannot be compared with ==.
type listError []string

func (l listError) Error() string { return strings.Join(l, ", ") }

// nilError is an error even as a nil pointer.
type nilError struct{}

func (e *nilError) Error() string { return "nothing there" }

// same tells whether two errors are the same value.
func same(a, b error) bool {
	if l, ok := a.(listError); ok {
		k, ok := b.(listError)
		return ok && equalStrings(k, l)
	}
	return a == b
}

func newErrPool() *errPool {
	p := &errPool{}
	base := stderrors.New("disk full")
	p.plain = []error{base, fmt.Errorf("while saving: %w", base), stderrors.New("say \"no\""), stderrors.Join(base, stderrors.New("second")),
		stderrors.New(""), listError{"a", "b"}, (*nilError)(nil)}
	return p
}

func (p *errPool) step(s ErrStep) {
	if s.K != "new" && s.K != "join" && (s.From < 0 || s.From >= len(p.vals)) {
		return
	}
	var e errors.TopolithError
	m := &errModel{}
	if s.K != "new" && s.K != "join" {
		e = p.vals[s.From]
		*m = *p.models[s.From]
		m.data = append([]errors.KvPair{}, m.data...)
		m.causes = append([]error{}, m.causes...)
		m.models = append([]*errModel{}, m.models...)
	}
	var errs []error
	var nonNil []error
	var models []*errModel
	for _, i := range s.Errs {
		switch {
		case i == -1:
			errs = append(errs, nil)
		case i < -1:
			x := p.plain[(-2-i)%len(p.plain)]
			errs, nonNil, models = append(errs, x), append(nonNil, x), append(models, nil)
		case i < len(p.vals):
			errs, nonNil, models = append(errs, p.vals[i]), append(nonNil, p.vals[i]), append(models, p.models[i])
		}
	}
	switch s.K {
	case "new":
		e = errors.New(string(s.Text))
		m.code, m.desc, m.msg = 500, knownCodes[500], string(s.Text)
	case "code":
		e = e.UseCode(errors.TopolithErrorCode(s.Code))
		m.code = s.Code
		if d, ok := knownCodes[s.Code]; ok {
			m.desc = d
		}
	case "desc":
		e = e.WithDescription(string(s.Text))
		m.desc = string(s.Text)
	case "data":
		var d []errors.KvPair
		for _, kv := range s.Data {
			d = append(d, errors.KvPair{Key: kv[0], Value: kv[1]})
		}
		m.data = append(m.data, d...)
		e = e.WithData(d...)
		for i := range d { // the caller may use its list for something else
			d[i] = errors.KvPair{Key: "overwritten", Value: "overwritten"}
		}
	case "clear":
		e = e.ClearData()
		m.data = nil
	case "cause":
		e = e.WithError(errs...)
		m.causes = append(m.causes, nonNil...)
		m.models = append(m.models, models...)
		for i := range errs {
			errs[i] = stderrors.New("overwritten")
		}
	case "join":
		e = errors.Join(errs...)
		m.code, m.desc, m.msg = 600, knownCodes[600], e.Message
		m.causes, m.models = nonNil, models
		for i := range errs {
			errs[i] = stderrors.New("overwritten")
		}
	}
	p.vals, p.models = append(p.vals, e), append(p.models, m)
}

// sameError compares an error value with what it should be, apart from its text.
func sameError(m *errModel, e errors.TopolithError, depth int) error {
	if int(e.Code) != m.code || e.Description != m.desc || e.Message != m.msg {
		return fmt.Errorf("is %d %q %q, should be %d %q %q", e.Code, e.Description, e.Message, m.code, m.desc, m.msg)
	}
	if len(e.Data) != len(m.data) {
		return fmt.Errorf("holds data %v, should be %v", e.Data, m.data)
	}
	for i := range m.data {
		if e.Data[i] != m.data[i] {
			return fmt.Errorf("holds data %v, should be %v", e.Data, m.data)
		}
	}
	first := stderrors.Unwrap(e)
	if len(m.causes) == 0 {
		if first != nil {
			return fmt.Errorf("has cause %v, was given none", first)
		}
		return nil
	}
	if m.models[0] != nil {
		te, ok := first.(errors.TopolithError)
		if !ok {
			return fmt.Errorf("unwraps to %v, the first cause was %v", first, m.causes[0])
		}
		if depth > 0 {
			if err := sameError(m.models[0], te, depth-1); err != nil {
				return fmt.Errorf("unwraps to another cause: %v", err)
			}
		}
	} else {
		if !same(m.causes[0], first) {
			return fmt.Errorf("unwraps to %v, the first cause was %v", first, m.causes[0])
		}
		if _, list := m.causes[0].(listError); !list && !stderrors.Is(e, m.causes[0]) {
			return fmt.Errorf("is not said to be its first cause %v", m.causes[0])
		}
	}
	return nil
}

func expressible(s string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(quotedChars, s[i]) < 0 {
			return false
		}
	}
	return true
}

// textOf checks the text of an error value.
func textOf(m *errModel, e errors.TopolithError) error {
	text := e.Error()
	if s := e.String(); s != text {
		return fmt.Errorf("is %q as an error and %q as a string", clip(text), clip(s))
	}
	p, err := grammar.Parse(text)
	if err != nil {
		return fmt.Errorf("the text %q is not readable: %v", clip(text), err)
	}
	if p.StmtType != "Status" && p.StmtType != "Response" {
		return fmt.Errorf("the text %q reads as %q", clip(text), p.StmtType)
	}
	if p.Response.Status.Code != m.code {
		return fmt.Errorf("the text %q reads as code %d, it is %d", clip(text), p.Response.Status.Code, m.code)
	}
	if expressible(m.desc) && expressible(m.msg) {
		if want := m.desc + ": " + m.msg; p.Response.Status.Message != want {
			return fmt.Errorf("the text %q reads as message %q, it is %q", clip(text), p.Response.Status.Message, want)
		}
	}
	at := 0
	for i, c := range m.causes {
		ct := c.Error()
		j := strings.Index(text[at:], ct)
		if j < 0 {
			return fmt.Errorf("the text %q lacks cause %d, %q, in its place", clip(text), i+1, clip(ct))
		}
		at += j + len(ct)
	}
	return nil
}

func (p *errPool) check(texts bool) error {
	for i := range p.vals {
		if err := sameError(p.models[i], p.vals[i], 4); err != nil {
			return fmt.Errorf("value %d %w", i+1, err)
		}
		if !texts || len(p.vals[i].Error()) > 20000 {
			continue
		}
		if err := textOf(p.models[i], p.vals[i]); err != nil {
			return fmt.Errorf("value %d: %w", i+1, err)
		}
	}
	return nil
}

func runC17(c errCase, ctx *Ctx) error {
	p := newErrPool()
	from := map[int]map[string]int{}
	branched := false
	for i, s := range c.Steps {
		if len(p.vals) > 0 && len(p.vals[len(p.vals)-1].Error()) > 200000 {
			break // causes of causes grow without bound
		}
		p.step(s)
		if s.K == "data" || s.K == "cause" {
			if from[s.From] == nil {
				from[s.From] = map[string]int{}
			}
			from[s.From][s.K]++
			if from[s.From][s.K] > 1 {
				branched = true
				ctx.Hit("two of " + s.K + " from one value")
			}
		}
		ctx.Hit(s.K)
		if err := p.check(false); err != nil {
			return violf("after step %d (%s): %w", i+1, s.K, err)
		}
	}
	if branched {
		ctx.NonTrivial()
	}
	return p.check(true)
}

func init() {
	register(Prop{ID: "C17", Quick: 200000, Thorough: 1500000,
		Rule:        "up to 25 error values, each new or derived from any earlier one by code, description, data, clearing, causes or joining, with causes among the earlier values, plain errors and nil; after each step all values are compared with what was put in, at the end also their texts; non-trivial when data or causes are added to one value twice, giving two values",
		Assumptions: []string{"negative codes and the message of a joined error are left open; causes appear in the text in order, first to last", "how the text shows a message that no quotation of the grammar can hold is left open, apart from the code"}},
		genErrCase, runC17)
}

package main

// refRead is a reader of command lines written from the documentation alone. It tells for certain that a
// line is a command (and which), or that it is not one, and abstains where the documentation says nothing
// (words run together, a bare word starting with a dash where an id is due, and the like).

import (
	"strconv"
	"strings"
)

type verdict int

const (
	reject verdict = iota
	accept
	abstain
)

type token struct {
	s      string // bare word, content of a quotation, or key of an attribute
	quoted bool
	attr   bool   // key=value
	v      string // value of an attribute
	vq     bool   // value quoted
	q      bool   // word followed by '?'
}

const space = " \t\r\n"

// lex splits a line into tokens; words must be separated by white space, otherwise it abstains.
func lex(s string) ([]token, verdict) {
	var out []token
	i := 0
	word := func() string {
		j := i
		for i < len(s) && strings.IndexByte(bareChars, s[i]) >= 0 {
			i++
		}
		return s[j:i]
	}
	quotation := func() (string, verdict) { // at the opening quote
		i++
		j := i
		for i < len(s) && strings.IndexByte(quotedChars, s[i]) >= 0 {
			i++
		}
		if i >= len(s) || s[i] != '"' {
			return "", reject // not closed, or a character no quotation can hold
		}
		i++
		return s[j : i-1], accept
	}
	for {
		for i < len(s) && strings.IndexByte(space, s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			return out, accept
		}
		var t token
		switch {
		case s[i] == '"':
			q, v := quotation()
			if v != accept {
				return nil, v
			}
			t = token{s: q, quoted: true}
		case strings.IndexByte(bareChars, s[i]) >= 0:
			t = token{s: word()}
			if i < len(s) && s[i] == '=' {
				t.attr = true
				i++
				if i >= len(s) || strings.IndexByte(space, s[i]) >= 0 {
					return nil, reject // an attribute without its value
				}
				if s[i] == '"' {
					q, v := quotation()
					if v != accept {
						return nil, v
					}
					t.v, t.vq = q, true
				} else if t.v = word(); t.v == "" {
					return nil, reject
				}
			} else if i < len(s) && s[i] == '?' {
				t.q = true
				i++
			}
		default:
			return nil, reject // a character outside of the syntax
		}
		if i < len(s) && strings.IndexByte(space, s[i]) < 0 {
			if s[i] == '"' || s[i] == '=' || s[i] == '?' || strings.IndexByte(bareChars, s[i]) >= 0 {
				return nil, abstain // run together
			}
			return nil, reject
		}
		out = append(out, t)
	}
}

func isItemType(s string) bool { return s != "" && validType(s) }

// flagOf tells whether a token is a flag; bare words that start with a dash and are none are not ids either.
func flagOf(t token) (string, bool) {
	if t.quoted || t.attr || t.q || t.s == "" || t.s[0] != '-' {
		return "", false
	}
	f := strings.TrimPrefix(strings.TrimPrefix(t.s, "-"), "-")
	switch f {
	case "strict", "verbose", "ids":
		return f, true
	}
	return "", false
}

func refRead(line string) (Cmd, verdict) {
	ts, v := lex(line)
	if v != accept {
		return Cmd{}, v
	}
	c := Cmd{N: -1}
	for len(ts) > 0 {
		f, ok := flagOf(ts[len(ts)-1])
		if !ok {
			break
		}
		c.F = append([]string{f}, c.F...)
		ts = ts[:len(ts)-1]
	}
	for _, t := range ts {
		if !t.quoted && !t.attr && t.s != "" && t.s[0] == '-' {
			return Cmd{}, abstain
		}
	}
	if len(ts) == 0 {
		return Cmd{}, reject
	}
	word := func(i int, w string) bool {
		return i < len(ts) && !ts[i].quoted && !ts[i].attr && !ts[i].q && ts[i].s == w
	}
	isId := func(i int) bool {
		return i < len(ts) && !ts[i].attr && !ts[i].q && (ts[i].quoted || bareId(ts[i].s))
	}
	head, rest := ts[0], ts[1:]
	if head.quoted || head.attr {
		return Cmd{}, reject
	}
	if head.q {
		ts = rest
		need := 0
		switch head.s {
		case "item":
			c.R, c.V, need = "item", "exists", 1
		case "rel":
			c.R, c.V, need = "rel", "exists", 2
		case "in":
			c.R, c.V, need = "item", "in?", 2
		case "from":
			c.R, c.V, need = "rel", "from?", 1
		case "to":
			c.R, c.V, need = "rel", "to?", 1
		default:
			return Cmd{}, reject
		}
		if len(ts) != need || !isId(0) || (need == 2 && !isId(1)) {
			return Cmd{}, reject
		}
		c.A = ts[0].s
		if need == 2 {
			c.B = ts[1].s
		}
		return c, accept
	}
	switch head.s {
	case "world":
		if len(rest) > 0 {
			return Cmd{}, reject
		}
		c.R, c.V = "world", "fetch"
		return c, accept
	case "free", "nest":
		c.R, c.V = "item", head.s
		ts = rest
		i := 0
		for isId(i) {
			c.L = append(c.L, ts[i].s)
			i++
		}
		if i == 0 {
			return Cmd{}, reject
		}
		if head.s == "nest" {
			if word(i, "in") && i+1 == len(ts) && len(c.F) > 0 {
				return Cmd{}, abstain // a flag where the parent is due
			}
			if !word(i, "in") || i+2 != len(ts) {
				return Cmd{}, reject
			}
			if !isId(i + 1) {
				return Cmd{}, abstain // a reserved word as a parent
			}
			c.B = ts[i+1].s
			return c, accept
		}
		if i != len(ts) {
			return Cmd{}, reject
		}
		return c, accept
	case "item", "items":
		c.R = "item"
	case "rel", "rels":
		c.R = "rel"
	default:
		return Cmd{}, reject
	}
	ts = rest
	if len(ts) == 0 {
		return Cmd{}, reject
	}
	i := 0
	verb := ""
	for _, v := range []string{"create", "set", "clear", "delete", "fetch", "list", "exists", "in"} {
		if word(0, v) {
			verb, i = v, 1
		}
	}
	switch verb {
	case "list":
		c.V = "list"
		if i < len(ts) && !ts[i].quoted && !ts[i].attr && !ts[i].q && isDigits(ts[i].s) {
			if digits := strings.TrimLeft(ts[i].s, "0"); len(digits) > 18 {
				c.H = ts[i].s // at least as many as there can be
			} else {
				c.N, _ = strconv.Atoi("0" + digits)
			}
			i++
		}
		if i < len(ts) && !ts[i].quoted && ts[i].s[0] >= '0' && ts[i].s[0] <= '9' && strings.Contains(ts[i].s, "-") {
			return Cmd{}, abstain // a limit and a flag run together
		}
		if i != len(ts) {
			return Cmd{}, reject
		}
		return c, accept
	case "in":
		if c.R != "item" || len(ts) != 2 || !isId(1) {
			return Cmd{}, reject
		}
		c.V, c.A = "components", ts[1].s
		return c, accept
	}
	if !isId(i) {
		return Cmd{}, reject
	}
	c.A = ts[i].s
	i++
	keys := itemKeys
	if c.R == "rel" {
		if !isId(i) {
			return Cmd{}, reject
		}
		c.B = ts[i].s
		i++
		keys = relKeys
	}
	known := func(k string) bool {
		for _, x := range keys {
			if x == k {
				return true
			}
		}
		return false
	}
	switch verb {
	case "delete", "fetch", "exists":
		if i != len(ts) {
			return Cmd{}, reject
		}
		c.V = verb
		return c, accept
	case "clear":
		c.V = verb
		for ; i < len(ts); i++ {
			if ts[i].quoted || ts[i].q || ts[i].attr {
				return Cmd{}, reject
			}
			if !known(ts[i].s) {
				for _, k := range keys {
					if rest, ok := strings.CutPrefix(ts[i].s, k); ok && runOn(rest) {
						return Cmd{}, abstain // keys run together
					}
				}
				return Cmd{}, reject
			}
			c.P = append(c.P, KV{ts[i].s, ""})
		}
		if len(c.P) == 0 {
			return Cmd{}, reject
		}
		return c, accept
	}
	for ; i < len(ts); i++ {
		t := ts[i]
		if !t.attr || !known(t.s) {
			return Cmd{}, reject
		}
		switch t.s {
		case "type":
			if t.vq || !isItemType(t.v) {
				if !t.vq {
					for _, k := range itemTypes {
						if rest, ok := strings.CutPrefix(t.v, k); ok && runOn(rest) {
							return Cmd{}, abstain
						}
					}
				}
				return Cmd{}, reject
			}
		case "external", "async":
			if t.vq || (t.v != "true" && t.v != "false") {
				for _, k := range []string{"true", "false"} {
					if rest, ok := strings.CutPrefix(t.v, k); ok && !t.vq && runOn(rest) {
						return Cmd{}, abstain
					}
				}
				return Cmd{}, reject
			}
		}
		c.P = append(c.P, KV{t.s, t.v})
	}
	c.V = verb
	if verb == "" {
		c.V = "cof"
		if len(c.P) > 0 {
			c.V = "cos"
		}
	}
	return c, accept
}

// runOn tells whether what follows a key or value without white space could be the next part of a line.
func runOn(rest string) bool {
	if strings.HasPrefix(rest, "-") {
		return true
	}
	for _, k := range append(append([]string{}, itemKeys...), relKeys...) {
		if strings.HasPrefix(rest, k) {
			return true
		}
	}
	return false
}

func isDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

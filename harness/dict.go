package main

// Words and numbers for the generators, taken from the source under test, as fuzzers do with their
// dictionaries. What the source has more of than at the commit the framework was written for comes up often,
// so that a change that treats some text or size apart meets it; everything else comes up now and then.
// They only steer what is generated. What is right is never judged by them.

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

//go:embed dict.json
var baseDict []byte

type dictData struct {
	Texts map[string]int
	Ints  map[string]int
}

type dictionary struct {
	texts, freshTexts []string
	ints, freshInts   []int
}

// readDict collects the literals of the source.
func readDict(root string) dictData {
	d := dictData{map[string]int{}, map[string]int{}}
	fset := gotoken.NewFileSet()
	filepath.WalkDir(root, func(path string, e os.DirEntry, err error) error {
		if err != nil || e.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.HasSuffix(path, "verif_hooks.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if e, ok := n.(*ast.BinaryExpr); ok {
				if v := constInt(e); v != nil {
					if n, exact := constant.Int64Val(v); exact && n > 1 {
						d.Ints[strconv.FormatInt(n, 10)]++
					}
				}
				return true
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case gotoken.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil {
					for _, w := range dictWords(s) {
						d.Texts[w]++
					}
				}
			case gotoken.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					for _, w := range dictWords(s) {
						d.Texts[w]++
					}
				}
			case gotoken.INT:
				if n, err := strconv.ParseInt(l.Value, 0, 64); err == nil && n > 1 {
					d.Ints[strconv.FormatInt(n, 10)]++
				}
			}
			return true
		})
		return nil
	})
	return d
}

// constInt is the value of an expression made of numbers only, nil for any other.
func constInt(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return constInt(x.X)
	case *ast.BasicLit:
		if x.Kind == gotoken.INT {
			return constant.MakeFromLiteral(x.Value, gotoken.INT, 0)
		}
	case *ast.BinaryExpr:
		a, b := constInt(x.X), constInt(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case gotoken.ADD, gotoken.SUB, gotoken.MUL:
			return constant.BinaryOp(a, x.Op, b)
		case gotoken.SHL:
			if n, ok := constant.Uint64Val(b); ok && n < 63 {
				return constant.Shift(a, gotoken.SHL, uint(n))
			}
		}
	}
	return nil
}

// dictWords lists the pieces of a text that the grammar can express, and the words in them.
func dictWords(s string) []string {
	var out []string
	add := func(x string) {
		if x != "" && len(x) <= 60 {
			out = append(out, x)
		}
	}
	for _, piece := range strings.FieldsFunc(s, func(r rune) bool { return r > 126 || !strings.ContainsRune(quotedChars, r) }) {
		add(piece)
		words := strings.FieldsFunc(piece, func(r rune) bool { return !strings.ContainsRune(bareChars, r) })
		if len(words) > 1 || len(words) == 1 && words[0] != piece {
			for _, w := range words {
				add(w)
			}
		}
	}
	return out
}

var theDict = sync.OnceValue(func() *dictionary {
	root := env("TOPOLITH_REPO", "/repo")
	now := readDict(root)
	var base dictData
	if err := json.Unmarshal(baseDict, &base); err != nil {
		panic(harnessError{err})
	}
	d := &dictionary{}
	for w, n := range now.Texts {
		if n > base.Texts[w] {
			d.freshTexts = append(d.freshTexts, w)
		}
		if !strings.HasPrefix(w, "ruleAction") {
			d.texts = append(d.texts, w)
		}
	}
	for w, n := range now.Ints {
		i, _ := strconv.Atoi(w)
		if n > base.Ints[w] {
			d.freshInts = append(d.freshInts, i)
		}
		d.ints = append(d.ints, i)
	}
	sort.Strings(d.texts)
	sort.Strings(d.freshTexts)
	sort.Ints(d.ints)
	sort.Ints(d.freshInts)
	return d
})

// dictText draws a text from the dictionary, sometimes inside of a longer one; false most of the time.
func dictText(t *rapid.T) (string, bool) {
	d := theDict()
	var s string
	switch {
	case len(d.freshTexts) > 0 && chance(t, "fresh", 12):
		s = pick(t, "word", d.freshTexts)
	case len(d.texts) > 0 && chance(t, "dict", 4):
		s = pick(t, "word", d.texts)
	default:
		return "", false
	}
	switch weighted(t, "around", 70, 10, 10, 10) {
	case 1:
		s += charText(quotedChars, 1, 4).Draw(t, "after")
	case 2:
		s = charText(quotedChars, 1, 4).Draw(t, "before") + s
	case 3:
		s = charText(bareChars, 1, 4).Draw(t, "before") + s + charText(bareChars, 1, 4).Draw(t, "after")
	}
	return s, true
}

var roundSizes = []int{8, 10, 16, 20, 24, 32, 50, 64, 80, 100, 127, 128, 200, 250, 255, 256, 300, 500, 512, 1000, 1024, 2048, 4096,
	8192, 10000, 16384, 32768, 65535, 65536, 100000}

// dictSize draws a number near one that the source has, or near a round one, up to a limit.
func dictSize(t *rapid.T, most int) (int, bool) {
	d := theDict()
	n := 0
	switch {
	case len(d.freshInts) > 0 && chance(t, "fresh", 15):
		n = pick(t, "number", d.freshInts)
	case chance(t, "round", 3):
		n = pick(t, "number", roundSizes)
	default:
		return 0, false
	}
	n += pick(t, "by", []int{0, 1, -1, 2})
	return n, n >= 1 && n <= most
}

// size draws how many there are of something: lo to hi, evenly or with a preference for few, and at times
// a number that may matter to the code, up to most.
func size(t *rapid.T, label string, lo, hi, most int) int {
	if n, ok := dictSize(t, most); ok {
		return max(lo, n)
	}
	if chance(t, "even", 40) {
		return lo + uniform(t, label, hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

package main

// C23, C24: the interactive console, with its terminal library replaced by one that reads lines from a pipe.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

const consoleMarker = "\x1e--done-8c41f0--\x1e\n"

func genConsoleCase(t *rapid.T) linesCase {
	c := linesCase{}
	g := &cmdGen{m: newModel("default-world"), mix: sessionMix}
	g.ids = genIds(t, 2, 6)
	n := size(t, "n", 1, 14, 60)
	last := "item a name=x"
	add := func(s string) {
		if len(s) > 2000 {
			s = s[:2000]
		}
		c.Lines = append(c.Lines, Any(s))
	}
	for i := 0; i < n; i++ {
		switch weighted(t, "what", 55, 30, 15) {
		case 1:
			add(genNoise(t, g.ids, last))
		case 2:
			add(pick(t, "blank", []string{"", " ", "\t", "  \n ", ".save", ".load x", "undo", "redo", "help", "exit"}))
		}
		last = g.draw(t).line()
		if chance(t, "padded", 20) {
			last = pick(t, "before", []string{" ", "\t", "", "\n"}) + last + pick(t, "after", []string{" ", "\t\t", "\n", ""})
		}
		add(last)
	}
	return c
}

// console is the built console, fed through a pipe.
type console struct {
	in     io.WriteCloser
	out    *bufio.Reader
	stderr bytes.Buffer
	cmd    *exec.Cmd
}

func startConsole() (*console, error) {
	bin := os.Getenv("TOPOLITH_CLI")
	if bin == "" {
		panic(harnessError{fmt.Errorf("no console was built")})
	}
	c := &console{cmd: exec.Command(bin)}
	c.cmd.Env = append(os.Environ(), "TERM=dumb")
	in, err := c.cmd.StdinPipe()
	if err != nil {
		panic(harnessError{err})
	}
	pipe, err := c.cmd.StdoutPipe()
	if err != nil {
		panic(harnessError{err})
	}
	c.in, c.out = in, bufio.NewReaderSize(pipe, 1<<16)
	c.cmd.Stderr = &c.stderr
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.cmd.Start(); err != nil {
		panic(harnessError{err})
	}
	if s, err := c.upToMarker(); err != nil {
		c.stop()
		return nil, violf("the console does not start: %v %q %q", err, clip(s), clip(c.stderr.String()))
	}
	return c, nil
}

func (c *console) stop() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

func (c *console) upToMarker() (string, error) {
	var b strings.Builder
	for {
		l, err := c.out.ReadString('\n')
		b.WriteString(l)
		if err != nil {
			return b.String(), err
		}
		if strings.HasSuffix(l, consoleMarker) {
			return strings.TrimSuffix(b.String(), consoleMarker), nil
		}
	}
}

// ask sends a request and returns what is printed for it.
func (c *console) ask(request string) (string, error) {
	if _, err := io.WriteString(c.in, request+"\n"); err != nil {
		return "", violf("the console is gone: %v %s", err, clip(c.stderr.String()))
	}
	got, err := c.upToMarker()
	if err != nil {
		return got, violf("the console ended after %q: %s", clip(got), clip(c.stderr.String()))
	}
	return got, nil
}

func (c *console) enter(line string) (string, error) { return c.ask(hex.EncodeToString([]byte(line))) }

func (c *console) suggest(before, after string) ([]string, error) {
	got, err := c.ask("?" + hex.EncodeToString([]byte(before)) + ":" + hex.EncodeToString([]byte(after)))
	if err != nil {
		return nil, err
	}
	out := []string{}
	for _, l := range strings.Fields(got) {
		b, err := hex.DecodeString(l)
		if err != nil {
			return nil, violf("asking for suggestions prints %q", clip(got))
		}
		out = append(out, string(b))
	}
	return out, nil
}

func runC23(c linesCase, ctx *Ctx) error {
	native, err := app.NewApp(world.CreateWorld("default-world"))
	if err != nil {
		return err
	}
	con, err := startConsole()
	if err != nil {
		return err
	}
	defer con.stop()
	answered, refused := 0, 0
	for i, raw := range c.Lines {
		line := string(raw)
		where := func(f string, a ...any) error {
			return violf("line %d, %q: %s", i+1, clip(line), fmt.Sprintf(f, a...))
		}
		got, err := con.enter(line)
		if err != nil {
			return where("%v", err)
		}
		entered := strings.TrimSpace(line)
		if entered == "" {
			ctx.Hit("blank")
			if got != "" {
				return where("a blank line prints %q", clip(got))
			}
			continue
		}
		if _, err := grammar.Parse(entered); err != nil {
			ctx.Hit("unreadable")
			refused++
			if strings.TrimSpace(got) == "" {
				return where("nothing is printed for a line that cannot be read")
			}
			continue
		}
		want := native.Exec(entered)
		ctx.Hit("answered")
		answered++
		got = strings.TrimSuffix(got, "\n")
		if _, code, _, err := splitAnswer(want); err == nil && code == 400 {
			// What was made of the line may be printed before the answer.
			if !strings.HasSuffix(got, want) {
				return where("printed %q, the engine answers %q", clip(got), clip(want))
			}
			continue
		}
		if err := sameAnswer(entered, want, got); err != nil {
			return where("%v", err)
		}
	}
	if answered > 0 && refused > 0 {
		ctx.NonTrivial()
	}
	return nil
}

func init() {
	register(Prop{ID: "C23", Quick: 24000, Thorough: 150000,
		Rule:        "sessions of up to 14 command lines, padded with white space, with blank lines, unreadable lines and lines of any bytes in between, entered in the console built from cmd/cli and sent to the engine itself; non-trivial when some lines are answered and some cannot be read",
		Assumptions: []string{"the terminal library is replaced by one that reads lines from a pipe and calls the console's own functions; line editing and drawing are not part of it", "what is printed about a line that cannot be read is left open"}},
		genConsoleCase, runC23)
	register(Prop{ID: "C24", Quick: 12000, Thorough: 80000,
		Rule:        "sessions of up to 8 command and other lines in the console, with suggestions asked for in between, for the beginning of a suggested word in any case, whole words, words with more after them, parts of command lines, blanks and other characters, with and without text after the cursor; non-trivial when some texts get suggestions and some get none, with lines entered in between",
		Assumptions: []string{"the terminal library is replaced as for C23", "texts with characters outside ASCII that have an upper case inside it are left open"}},
		genSuggestCase, runC24)
}

// Typing is a text being typed in the console, or a line that is entered.
type Typing struct {
	Before Any  `json:"before"`
	After  Any  `json:"after,omitempty"`
	Enter  bool `json:"enter,omitempty"`
}

type suggestCase struct {
	Steps []Typing `json:"steps"`
}

// firstWords are the words with which a command can begin.
var firstWords = []string{"item", "rel", "world", "in?", "nest", "free"}

func genSuggestCase(t *rapid.T) suggestCase {
	c := suggestCase{}
	g := &cmdGen{m: newModel("default-world"), mix: sessionMix}
	g.ids = genIds(t, 2, 4)
	words := append([]string{".save", ".load", "undo", "redo", "help", "tree", "from?"}, firstWords...)
	words = append(words, words[7:]...)
	last := "item a"
	n := size(t, "n", 3, 16, 60)
	for i := 0; i < n; i++ {
		if chance(t, "enter", 25) {
			last = g.draw(t).line()
			if chance(t, "noise", 30) {
				last = genNoise(t, g.ids, last)
			}
			if len(last) > 2000 {
				last = last[:2000]
			}
			c.Steps = append(c.Steps, Typing{Before: Any(last), Enter: true})
			continue
		}
		s := ""
		switch weighted(t, "typed", 55, 10, 10, 10, 8, 7) {
		case 0:
			w := pick(t, "word", words)
			s = w[:uniform(t, "cut", len(w)+1)]
		case 1:
			s = pick(t, "whole", words) + pick(t, "more", []string{" ", "x", " a", "?", "s"})
		case 2:
			w := g.draw(t).line()
			s = w[:uniform(t, "cut", len(w)+1)]
		case 3:
			s = pick(t, "blank", []string{" ", "  ", "\t"}) + pick(t, "word", words)[:1]
		case 4:
			w := pick(t, "word", words)
			s = w[uniform(t, "from", len(w)):]
		default:
			s = rapid.StringN(0, 6, 20).Draw(t, "any")
		}
		if chance(t, "case", 30) {
			b := []byte(s)
			for i := range b {
				if c := b[i] | 0x20; c >= 'a' && c <= 'z' && chance(t, "flip", 50) {
					b[i] ^= 0x20
				}
			}
			s = string(b)
		}
		after := ""
		if chance(t, "after", 25) {
			after = pick(t, "rest", []string{"m", "item", " a", "orld", "x", "est a in b"})
		}
		if len(s) > 150 {
			s = s[:150]
		}
		if !utf8.ValidString(s) || strings.ContainsAny(s, "\n\r") {
			s = "i"
		}
		c.Steps = append(c.Steps, Typing{Before: Any(s), After: Any(after)})
	}
	return c
}

func runC24(c suggestCase, ctx *Ctx) error {
	native, err := app.NewApp(world.CreateWorld("default-world"))
	if err != nil {
		return err
	}
	con, err := startConsole()
	if err != nil {
		return err
	}
	defer con.stop()
	all, err := con.suggest("", "")
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, w := range all {
		if seen[w] {
			return violf("with nothing typed, %q is suggested twice", w)
		}
		seen[w] = true
	}
	for _, w := range firstWords {
		if !seen[w] {
			return violf("with nothing typed, %q is not suggested, though a command can begin with it", w)
		}
	}
	some, none, entered := false, false, false
	for i, s := range c.Steps {
		text := string(s.Before)
		where := func(f string, a ...any) error {
			return violf("step %d, %q: %s", i+1, clip(text), fmt.Sprintf(f, a...))
		}
		if s.Enter {
			got, err := con.enter(text)
			if err != nil {
				return where("%v", err)
			}
			line := strings.TrimSpace(text)
			if _, err := grammar.Parse(line); err != nil || line == "" {
				continue
			}
			entered = true
			want := native.Exec(line)
			if _, code, _, err := splitAnswer(want); err == nil && code != 400 {
				if err := sameAnswer(line, want, strings.TrimSuffix(got, "\n")); err != nil {
					return where("%v", err)
				}
			}
			continue
		}
		got, err := con.suggest(text, string(s.After))
		if err != nil {
			return where("%v", err)
		}
		if ambiguousCase(text) {
			continue
		}
		want := []string{}
		for _, w := range all {
			if len(w) >= len(text) && asciiLower(w[:len(text)]) == asciiLower(text) {
				want = append(want, w)
			}
		}
		if !equalStrings(want, got) {
			return where("the suggestions are %q, should be %q", got, want)
		}
		if len(want) > 0 {
			some = true
			ctx.Hit("suggestions")
		} else {
			none = true
			ctx.Hit("no suggestion")
		}
	}
	if some && none && entered {
		ctx.NonTrivial()
	}
	return nil
}

func asciiLower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// ambiguousCase tells whether a text has letters outside ASCII that are ASCII in another case.
func ambiguousCase(s string) bool {
	for _, r := range s {
		if r > 127 && (unicode.ToUpper(r) < 128 || unicode.ToLower(r) < 128) {
			return true
		}
	}
	return false
}

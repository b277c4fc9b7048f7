package main

// C20: the compiled web module under node, next to the engine itself.

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"pgregory.net/rapid"
)

//go:embed wasm_driver.js
var wasmDriver []byte

// Call is one call of the web module: a line, or arguments that are none.
type Call struct {
	Line  string            `json:"line"`
	Odd   []json.RawMessage `json:"odd,omitempty"` // arguments, if it is not one line
	IsOdd bool              `json:"isodd,omitempty"`
}

type wasmCase struct {
	Calls []Call `json:"calls"`
}

var oddArgs = []string{`1`, `null`, `true`, `{}`, `[]`, `{"special":"undefined"}`, `{"special":"nan"}`, `{"special":"symbol"}`, `{"special":"function"}`,
	`{"special":"bigint"}`, `"item a"`, `"\ud800"`, `"item \udc00"`, `""`}

func genWasmCase(t *rapid.T) wasmCase {
	var c wasmCase
	g := &cmdGen{m: newModel("default-world"), mix: sessionMix}
	g.ids = genIds(t, 2, 6)
	n := size(t, "n", 1, 16, 40)
	last := "item a name=x"
	add := func(s string) {
		s = strings.ToValidUTF8(s, "\uFFFD")
		if len(s) > 1200 {
			s = strings.ToValidUTF8(s[:1200], "")
		}
		c.Calls = append(c.Calls, Call{Line: s})
	}
	for i := 0; i < n; i++ {
		switch weighted(t, "what", 60, 30, 10) {
		case 1:
			add(genNoise(t, g.ids, last))
		case 2:
			k := pick(t, "args", []int{0, 2, 1, 1, 3})
			call := Call{IsOdd: true}
			for j := 0; j < k; j++ {
				call.Odd = append(call.Odd, json.RawMessage(pick(t, "arg", oddArgs)))
			}
			c.Calls = append(c.Calls, call)
		}
		last = g.draw(t).line()
		add(last)
	}
	if chance(t, "huge", 3) {
		n := pick(t, "n", []int{9000, 17000, 33000, 66000})
		if k, ok := dictSize(t, 100000); ok {
			n = k
		}
		at := uniform(t, "at", len(c.Calls)+1)
		huge := []Call{{Line: `item huge expanded="` + strings.Repeat("long ", n/5+1)[:n] + `"`}, {Line: "item fetch huge"}, {Line: "world"}}
		c.Calls = append(c.Calls[:at:at], append(huge[:1+uniform(t, "more", 3)], c.Calls[at:]...)...)
	}
	return c
}

// bridge is a node process.
type bridge struct {
	in   *os.File
	out  *bufio.Reader
	uses int
	stop chan struct{}
}

var theBridge *bridge

type bridgeReply struct {
	Dead   *string `json:"dead"`
	Type   string  `json:"type"`
	Reply  string  `json:"reply"`
	Threw  string  `json:"threw"`
	Driver string  `json:"driver"`
}

func startBridge(dir string) *bridge {
	module, support := os.Getenv("TOPOLITH_WASM"), os.Getenv("WASM_EXEC")
	if module == "" || support == "" {
		panic(harnessError{fmt.Errorf("no web module was built")})
	}
	driver := filepath.Join(dir, "driver.js")
	if err := os.WriteFile(driver, wasmDriver, 0o644); err != nil {
		panic(harnessError{err})
	}
	inR, inW, err := os.Pipe()
	if err != nil {
		panic(harnessError{err})
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		panic(harnessError{err})
	}
	b := &bridge{in: inW, out: bufio.NewReaderSize(outR, 1<<20), stop: make(chan struct{})}
	started := make(chan error)
	go func() {
		// The process ends with the thread that started it.
		runtime.LockOSThread()
		cmd := exec.Command("node", "--max-old-space-size=1500", driver, support, module)
		cmd.Stdin = inR
		cmd.ExtraFiles = []*os.File{outW}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := cmd.Start()
		inR.Close()
		outW.Close()
		started <- err
		if err != nil {
			return
		}
		go func() {
			<-b.stop
			inW.Close()
			cmd.Process.Kill()
		}()
		cmd.Wait()
		outR.Close()
	}()
	if err := <-started; err != nil {
		panic(harnessError{err})
	}
	return b
}

func (b *bridge) call(req any) (bridgeReply, error) {
	var r bridgeReply
	j, err := json.Marshal(req)
	if err != nil {
		return r, err
	}
	if _, err := b.in.Write(append(j, '\n')); err != nil {
		return r, err
	}
	line, err := b.out.ReadBytes('\n')
	if err != nil {
		return r, err
	}
	if err := json.Unmarshal(line, &r); err != nil {
		return r, err
	}
	if r.Driver != "" {
		return r, fmt.Errorf("driver: %s", r.Driver)
	}
	return r, nil
}

// freshModule starts a new web module, in a new process now and then.
func freshModule(ctx *Ctx) *bridge {
	for try := 0; ; try++ {
		if theBridge != nil && (theBridge.uses >= 40 || try > 0) {
			close(theBridge.stop)
			theBridge = nil
		}
		if theBridge == nil {
			theBridge = startBridge(ctx.scratch)
		}
		theBridge.uses++
		r, err := theBridge.call(map[string]any{"op": "new"})
		if err == nil && r.Dead == nil {
			return theBridge
		}
		if try >= 3 {
			if err == nil {
				return theBridge // it does not even start; the first call will tell
			}
			panic(harnessError{fmt.Errorf("the web module's process does not work: %v", err)})
		}
	}
}

func runC20(c wasmCase, ctx *Ctx) error {
	b := freshModule(ctx)
	native, err := app.NewApp(world.CreateWorld("default-world"))
	if err != nil {
		return err
	}
	good, refused := 0, 0
	for i, call := range c.Calls {
		where := func(f string, a ...any) error {
			what := fmt.Sprintf("%q", clip(call.Line))
			if call.IsOdd {
				what = fmt.Sprintf("arguments %s", call.Odd)
			}
			return violf("call %d, %s: %s", i+1, what, fmt.Sprintf(f, a...))
		}
		args := []json.RawMessage{}
		if call.IsOdd {
			args = append(args, call.Odd...)
		} else {
			j, err := json.Marshal(call.Line)
			if err != nil {
				panic(harnessError{err})
			}
			args = append(args, j)
		}
		r, err := b.call(map[string]any{"op": "send", "args": args})
		if err != nil {
			// The process is gone or talks nonsense.
			close(b.stop)
			theBridge = nil
			return where("the module's process ended: %v", err)
		}
		if r.Dead != nil {
			return where("the module stopped: %s", *r.Dead)
		}
		if r.Threw != "" {
			return where("the module threw %s", r.Threw)
		}
		if call.IsOdd {
			ctx.Hit(fmt.Sprintf("%d odd arguments", len(call.Odd)))
			if len(call.Odd) != 1 {
				continue
			}
			// One argument that is no line, or a line drawn here: the engine decides by its text.
			var s string
			if call.Odd[0][0] != '"' || json.Unmarshal(call.Odd[0], &s) != nil {
				continue
			}
			// JSON text with lone surrogates arrives with the replacement character, in node as here.
			call.Line = s
		}
		if r.Type != "string" {
			return where("answered with a %s", r.Type)
		}
		var reply struct {
			Status *int               `json:"status"`
			Data   *grammar.Response  `json:"data"`
			Error  *map[string]string `json:"error"`
			Raw    *string            `json:"raw"`
		}
		if err := json.Unmarshal([]byte(r.Reply), &reply); err != nil {
			return where("answered %q, which is no JSON: %v", clip(r.Reply), err)
		}
		if reply.Status == nil || reply.Data == nil || reply.Error == nil || reply.Raw == nil {
			return where("answered %q, which lacks a part", clip(r.Reply))
		}
		raw := *reply.Raw
		if err := sameAnswer(call.Line, native.Exec(call.Line), raw); err != nil {
			return where("%v", err)
		}
		_, code, _, err := splitAnswer(raw)
		if err != nil {
			return where("raw: %v", err)
		}
		if *reply.Status != code {
			return where("status is %d, the answer says %d", *reply.Status, code)
		}
		p, err := grammar.Parse(raw)
		if err != nil {
			return where("the answer %q is not readable", clip(raw))
		}
		if !reflect.DeepEqual(*reply.Data, p.Response) {
			return where("data is %+v, the answer reads as %+v", *reply.Data, p.Response)
		}
		e := *reply.Error
		if code == 200 {
			good++
			for k, v := range e {
				if v != "" {
					return where("success comes with error part %q: %q", k, v)
				}
			}
		} else {
			refused++
			if e["code"] != strconv.Itoa(code) || e["message"] != p.Response.Status.Message {
				return where("code %d and message %q come with error %v", code, p.Response.Status.Message, e)
			}
		}
	}
	if good > 0 && refused > 0 {
		ctx.NonTrivial()
	}
	return nil
}

// sameAnswer compares two answers to one line. Listings may come in any order, limited ones and loose
// fetches may show any of the matches.
func sameAnswer(line, want, got string) error {
	bad := func() error { return fmt.Errorf("answered %q, the engine answers %q", clip(got), clip(want)) }
	if want == got {
		return nil
	}
	_, code1, rest1, err1 := splitAnswer(want)
	_, code2, rest2, err2 := splitAnswer(got)
	if err1 != nil || err2 != nil || code1 != code2 || rest1 != rest2 {
		return bad()
	}
	if w1, w2 := worldOf(want), worldOf(got); w1 != nil && w2 != nil {
		if d := diff(w1, w2); d != "" {
			return fmt.Errorf("answered with another world than the engine: %s", d)
		}
		return nil
	}
	if sortedLines(want) == sortedLines(got) {
		return nil
	}
	c, v := refRead(line)
	if v == abstain || (v == accept && (c.V == "fetch" || (c.V == "list" && c.N > 0))) {
		if strings.Count(want, "\n") == strings.Count(got, "\n") {
			return nil
		}
	}
	return bad()
}

func init() {
	register(Prop{ID: "C20", Quick: 2400, Thorough: 30000, Quiet: true,
		Rule:        "sessions of up to 16 command lines with texts of any characters, wrong argument counts and arguments that are no strings in between, given to a fresh instance of cmd/wasm compiled for js/wasm and run by node, and to the engine compiled natively; non-trivial when some calls succeed and some answer an error",
		Assumptions: []string{"node runs the module as a browser would", "what is returned for a wrong number of arguments or for an argument that is no string is left open", "listings are compared without regard to order"}},
		genWasmCase, runC20)
}

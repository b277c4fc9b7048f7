package main

import (
	"fmt"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// cmdOf turns an operation into the command that means the same; ok is false if there is none.
func cmdOf(o Op) (Cmd, bool) {
	c := Cmd{A: o.A, B: o.B, N: -1}
	for _, k := range []string{"name", "type", "mechanism", "expanded", "external", "verb", "async"} {
		if v, ok := o.P[k]; ok {
			c.P = append(c.P, KV{k, v})
		}
	}
	switch o.K {
	case "create", "set", "delete":
		c.R, c.V = "item", o.K
	case "rcreate", "rset", "rdelete":
		c.R, c.V = "rel", o.K[1:]
	case "nest":
		c = Cmd{R: "item", V: "nest", L: []string{o.A}, B: o.B, N: -1}
	case "free":
		c = Cmd{R: "item", V: "free", L: []string{o.A}, N: -1}
	default:
		return Cmd{}, false
	}
	if o.A == "" || (o.P["type"] != "" && !validType(o.P["type"])) {
		return Cmd{}, false
	}
	return c, true
}

// command makes the Command of a line.
func command(line string) (app.Command, error) {
	p, err := grammar.Parse(line)
	if err != nil || p.StmtType != "Command" {
		return nil, fmt.Errorf("command line %q is not read as a command (%v)", line, err)
	}
	c, err := app.InputToCommand(p.InputAttributes)
	if err != nil {
		return nil, fmt.Errorf("command line %q makes no command: %v", line, err)
	}
	return c, nil
}

// viaCommands runs operations as command lines on a world.
func viaCommands(w world.World, ops []Op) error {
	for _, o := range ops {
		c, ok := cmdOf(o)
		if !ok {
			do(w, o)
			continue
		}
		cmd, err := command(c.line())
		if err != nil {
			return err
		}
		if o.Read {
			touch(w, o)
		}
		cmd.Execute(w)
	}
	return nil
}

func newApp(name string) app.App {
	a, err := app.NewApp(world.CreateWorld(name))
	if err != nil {
		panic(harnessError{err})
	}
	return a
}

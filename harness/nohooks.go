//go:build !verif

package main

import "github.com/williamflynt/topolith/pkg/app"

// Built against a tree whose hooks do not compile: undo and redo of a session are out of reach.
func undo(a app.App) (error, int, bool) { return nil, 0, false }
func redo(a app.App) (error, int, bool) { return nil, 0, false }

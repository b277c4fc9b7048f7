//go:build verif

package main

import "github.com/williamflynt/topolith/pkg/app"

func undo(a app.App) (error, int, bool) { return app.VerifUndo(a) }
func redo(a app.App) (error, int, bool) { return app.VerifRedo(a) }

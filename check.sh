#!/bin/bash
# check.sh <ID>                run the check of one property against /repo's current working tree
# check.sh --replay <file>     run the case of a replay file again
# check.sh --setup             fill the build cache
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${TOPOLITH_REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export VERIF_DIR="${VERIF_OUT:-$VERIF}" TOPOLITH_REPO="$REPO"

OUT="$(mktemp -d /tmp/topolith-check.XXXXXXXX)" || exit 2
cleanup() { case "$OUT" in /tmp/topolith-check.*) rm -rf "$OUT" ;; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM

# The harness names /repo in its go.mod; another tree goes in through a copy of that file.
cp "$VERIF/harness/go.mod" "$OUT/go.mod" && cp "$VERIF/harness/go.sum" "$OUT/go.sum" || exit 2
if [ "$REPO" != /repo ]; then
  sed -i "s#=> /repo\$#=> $REPO#" "$OUT/go.mod"
fi

build() { ( cd "$VERIF/harness" && go build -mod=mod -modfile="$OUT/go.mod" "$@" -o "$OUT/harness" . ) 2>"$OUT/build.log"; }

MODE="${1:-}"
ID="$MODE"
case "$MODE" in
  "") echo "usage: check.sh <ID>" >&2; exit 2 ;;
  --replay) ID="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "${2:?replay file}" | head -n 1)" ;;
esac

built=
if [ "$ID" = C16 ] || [ "$MODE" = --setup ]; then
  # With the race detector, where there is a C compiler.
  export GORACE="halt_on_error=1"
  if CGO_ENABLED=1 build -race -tags verif || CGO_ENABLED=1 build -race -tags nohooks; then built=race; fi
fi
if [ "$built" != race ] || [ "$MODE" = --setup ]; then
  if ! build -tags verif; then
    # Without the hooks: undo and redo of a session are then out of reach, everything else is not.
    if ! build -tags nohooks; then
      cat "$OUT/build.log" >&2
      echo "the harness does not build against $REPO" >&2
      exit 2
    fi
  fi
fi

if [ "$MODE" = --setup ] || [ "$ID" = C20 ]; then
  cp "$REPO/go.mod" "$OUT/repo.mod" && cp "$REPO/go.sum" "$OUT/repo.sum" || exit 2
  if ! ( cd "$REPO" && GOOS=js GOARCH=wasm go build -mod=mod -modfile="$OUT/repo.mod" -o "$OUT/topolith.wasm" ./cmd/wasm ) 2>"$OUT/wasm.log"; then
    cat "$OUT/wasm.log" >&2
    echo "cmd/wasm does not build" >&2
    exit 2
  fi
  export TOPOLITH_WASM="$OUT/topolith.wasm" WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js"
fi

if [ "$MODE" = --setup ] || [ "$ID" = C23 ] || [ "$ID" = C24 ]; then
  # The console with a copy of its terminal library that reads lines from a pipe.
  cp "$REPO/go.mod" "$OUT/cli.mod" && cp "$REPO/go.sum" "$OUT/cli.sum" || exit 2
  LIB="$( cd "$REPO" && go list -mod=mod -modfile="$OUT/cli.mod" -m -f '{{.Dir}}' github.com/c-bata/go-prompt )" || exit 2
  cp -r "$LIB" "$OUT/prompt" && chmod -R u+w "$OUT/prompt" || exit 2
  sed -i 's/^func (p \*Prompt) Run() {/func (p *Prompt) runTerminal() {/' "$OUT/prompt/prompt.go"
  sed -i 's/in: NewStandardInputParser(),/in: nil,/' "$OUT/prompt/option.go"
  cp "$VERIF/harness/prompt/verif_run.go.txt" "$OUT/prompt/verif_run.go" || exit 2
  echo "replace github.com/c-bata/go-prompt => $OUT/prompt" >>"$OUT/cli.mod"
  if ! ( cd "$REPO" && go build -mod=mod -modfile="$OUT/cli.mod" -o "$OUT/cli" ./cmd/cli ) 2>"$OUT/cli.log"; then
    cat "$OUT/cli.log" >&2
    echo "cmd/cli does not build" >&2
    exit 2
  fi
  export TOPOLITH_CLI="$OUT/cli"
fi

case "$MODE" in
  --setup) "$OUT/harness" list ;;
  --replay) "$OUT/harness" replay "$2" "${3:-300}" ;;
  *) "$OUT/harness" check "$MODE" ;;
esac

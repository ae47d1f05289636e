# sourced by ../check: build_plain CMD, build_mc CMD [race]
mkdir -p "$S/run"
# modfile: /repo's requirements, the riot module from $1, and the stub for the unfetchable one
modfile() {
  { echo "module vmc"; echo; echo "go 1.24"; echo
    sed -n '/^require (/,/^)/p' "$REPO/go.mod" | sed 's#\(github.com/go-vgo/gt/info\) .*#\1 v0.0.0#'
    echo "require github.com/go-ego/riot v0.0.0"
    echo "replace github.com/go-ego/riot => $1"
    echo "replace github.com/go-vgo/gt/info => $HERE/mc/stubs/gtinfo"
  } > "$S/go.mod"
  cp "$REPO/go.sum" "$S/go.sum"
}
build_plain() {
  modfile "$REPO"
  ( cd "$HERE/mc" && GOFLAGS="-mod=mod -modfile=$S/go.mod" go build -o "$S/bin" "./cmd/$1" ) > "$S/build.log" 2>&1
}
# instrumented copy of /repo in $S/src, run under the scheduler vmc/mc
build_mc() {
  ( cd "$HERE/mc" && GOFLAGS= go build -o "$S/instr" ./cmd/instr && "$S/instr" "$REPO" "$S/src" ) > "$S/build.log" 2>&1 || return 1
  modfile "$S/src"
  # names the harness needs from inside a package; without them it still builds under -tags noexport
  local f
  ( cd "$HERE/mc/exports" && find . -name '*.go.txt' ) | while read -r f; do
    [ -d "$S/src/$(dirname "$f")" ] && cp "$HERE/mc/exports/$f" "$S/src/${f%.txt}"
  done
  # the instrumented copy imports vmc/mc: it lives in a workspace with the harness module
  local extra=()
  # the scheduler itself is not instrumented, so that its own hand-offs and state neither order nor report anything
  [ "${2:-}" = race ] && extra=(-race "-gcflags=vmc/mc=-race=false -l" "-gcflags=vmc/mcsync=-race=false -l")
  ( cd "$HERE/mc" && GOFLAGS="-mod=mod -modfile=$S/go.mod" go build "${extra[@]}" -o "$S/bin" "./cmd/$1" ) >> "$S/build.log" 2>&1 && return 0
  ( cd "$HERE/mc/exports" && find . -name '*.go.txt' ) | while read -r f; do rm -f "$S/src/${f%.txt}"; done
  ( cd "$HERE/mc" && GOFLAGS="-mod=mod -modfile=$S/go.mod" go build "${extra[@]}" -tags noexport -o "$S/bin" "./cmd/$1" ) >> "$S/build.log" 2>&1
}

# sourced by check.sh, replay.sh and setup.sh
export PATH=/usr/local/go/bin:/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
HEALTHGC=-gcflags=github.com/gocraft/health/...=-l
MCPKGS="verif/mc verif/mc/x/time verif/mc/x/sync verif/mc/x/net verif/mc/x/net/http verif/mc/x/runtime verif/mc/x/runtime/debug verif/mc/x/context"

# healthd and the commands need stand-ins for some libraries; only their own
# properties build them.
TAGS=
case "${P:-all}" in C24|C25|C26|C27|C28|C30|C32|C33|all) TAGS=healthd ;; esac
case "${P:-all}" in C29|C31|all) TAGS=$TAGS,healthd,commands ;; esac
export GOFLAGS="$GOFLAGS -tags=${TAGS#,}"

# overlay WORKDIR: the commands are main packages; copies under another name
# (zzhealthtop.Main, zzhealthd.Main) can be run by the harness.
overlay() {
  local W=$1 c f
  printf '{"Replace": {"/repo/go.mod": "%s/stubs/health.go.mod", "/repo/go.sum": ""' "$PWD" > "$W/base.json"
  case "$TAGS" in *commands*)
    for c in healthtop healthd; do
      mkdir -p "$W/cmd/$c"
      for f in /repo/cmd/$c/*.go; do
        case "$f" in *_test.go) continue ;; esac
        sed "s/^package main\b/package zz$c/; s/^func main()/func Main()/" "$f" > "$W/cmd/$c/$(basename "$f")"
        printf ', "/repo/cmd/zz%s/%s": "%s"' $c "$(basename "$f")" "$W/cmd/$c/$(basename "$f")" >> "$W/base.json"
      done
    done ;;
  esac
  echo '}}' >> "$W/base.json"
}

# build WORKDIR: instruments /repo's working tree and builds WORKDIR/harness
# (and, with RACE=1, WORKDIR/harness-race).
build() {
  local W=$1
  overlay "$W"
  mkdir -p "$W/src" && go build -o "$W/instr" ./instr &&
  "$W/instr" -out "$W/src" -overlay "$W/base.json" -target ./harness -stmts github.com/gocraft/health -prefixes github.com/gocraft/health,github.com/braintree/manners,github.com/gocraft/web &&
  go build -overlay "$W/src/overlay.json" "$HEALTHGC" -o "$W/harness" ./harness || return 2
  if [ "$RACE" = 1 ]; then
    local G=()
    for p in $MCPKGS; do G+=("-gcflags=$p=-race=false"); done
    # packages compiled without -race must still allocate through the race-aware
    # allocator, or reused memory looks like a race
    # and the standard library's pools must hand nothing from one goroutine to
    # another: that would order accesses that the code under test does not order
    local R; R=$(go env GOROOT)/src/sync/pool.go
    sed 's/^func (p \*Pool) Put(x any) {$/&\n\tif race.Enabled {\n\t\treturn\n\t}/' "$R" > "$W/src/pool.go"
    sed "s|^ \"Replace\": {|&\n  \"$R\": \"$W/src/pool.go\",|" "$W/src/overlay.json" > "$W/src/overlay-race.json"
    GOEXPERIMENT=nosizespecializedmalloc CGO_ENABLED=1 go build -race -overlay "$W/src/overlay-race.json" "$HEALTHGC" "${G[@]}" -o "$W/harness-race" ./harness || return 2
  fi
}

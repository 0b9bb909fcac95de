# sourced by the scripts of /verif: Go settings and the build of the harness
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG
export GORACE="halt_on_error=1 exitcode=66"
# build_harness OUT [race]: builds the harness against /repo's working tree (which has no go.mod: one is laid over it)
build_harness() {
  local race=
  if [ "${2:-}" = race ]; then race=-race; fi
  local ov; ov=$(mktemp) || return 1
  printf '{"Replace":{"/repo/go.mod":"%s/harness/repo.go.mod"}}' "$VERIF_DIR" > "$ov"
  ( cd "$VERIF_DIR/harness" && GOFLAGS="-mod=mod -overlay=$ov" go build $race -o "$1" . )
  local rc=$?
  /bin/rm -f "$ov"
  return $rc
}
# build_kind PROPERTY: the properties about running at the same time are searched with the race detector
build_kind() { case $1 in T*) echo race ;; esac; }

#!/bin/bash
# check.sh <property> [tier]   decide one property on /repo's current working tree
# check.sh replay <file>       run a replay file
# check.sh one <property> <run> [seed]   show one run
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${VSIM_REPO:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB=* GOWORK=off CGO_ENABLED=1
MODE="$1"
[ "$MODE" = replay ] && set -- replay "$(realpath "$2")"
S="$(mktemp -d /tmp/vsim.XXXXXX)" || exit 2
cleanup() { case "$S" in /tmp/vsim.*) chmod -R u+w "$S" 2>/dev/null; rm -rf "$S";; esac; }
trap cleanup EXIT
fail() { echo "check error: $*" >&2; exit 2; }
case "$MODE" in
replay) PROP="$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)";;
one) PROP="$2";;
*) PROP="$1";;
esac
cd "$V/sim" || fail "no simulator"
go build -o "$S/instrument" ./cmd/instrument || fail "instrument does not build"
"$S/instrument" "$REPO" "$S/ogdl" || fail "instrumentation failed"
sed '/^replace/d' go.mod > "$S/h.mod"
cat >> "$S/h.mod" <<M
require github.com/rveen/ogdl v0.0.0
require golang.org/x/text v0.3.8
replace github.com/rveen/ogdl => $S/ogdl
M
cp "$REPO/go.sum" "$S/h.sum" 2>/dev/null
RACE=""
case " C18 C19 C20 " in *" $PROP "*) RACE=1;; esac
if [ -n "$RACE" ]; then
  # allocations of packages compiled without -race must reset the detector's memory
  # packages that keep state in what they are given, and share nothing themselves, are seen as well
  SEEN=""
  for p in bytes strings bufio sort container/list container/heap container/ring golang.org/x/text/...; do SEEN="$SEEN -gcflags=$p=-l"; done
  GOEXPERIMENT=nosizespecializedmalloc go build -modfile="$S/h.mod" -race -tags race -gcflags='all=-race=false -l' -gcflags='github.com/rveen/ogdl/...=-l' $SEEN -o "$S/h" ./harness || fail "build failed"
else
  go build -modfile="$S/h.mod" -o "$S/h" ./harness || fail "build failed"
fi
export GORACE="exitcode=0 log_path=$S/race halt_on_error=0 history_size=4 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0" VSIM_RACELOG="$S/race"
case "$MODE" in
replay) "$S/h" replay -verif "$V" -in "$2"; exit $?;;
one) GOMAXPROCS=1 "$S/h" one -verif "$V" -prop "$PROP" -run "$3" -seed "${4:-${VERIF_SEED:-1}}"; exit $?;;
esac
[ "${2:-}" = build ] && { echo "built $PROP"; exit 0; }
"$S/h" check -verif "$V" -prop "$PROP" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" ${VSIM_ARGS:-}
R=$?
[ $R -eq 0 ] || [ $R -eq 1 ] || R=2
exit $R

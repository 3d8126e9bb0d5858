#!/bin/bash
# run.sh PROP quick|thorough     check a property of /repo's current tree
# run.sh replay FILE             run one saved case
# run.sh setup                   build everything once
set -u
cd /verif || exit 2
. /verif/env.sh
OUT=$(mktemp -d /tmp/vh-build.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
export VH_BIN="$OUT"
OV=/verif/harness/overlay/overlay.json
build() {
  cd /verif/harness || exit 2
  # with the checks that use internal names, and without them where these
  # names have changed
  go build -tags stacks,wrappers -overlay $OV -o "$OUT/vh" ./cmd/vh >"$OUT/log" 2>&1 ||
  go build -tags wrappers -overlay $OV -o "$OUT/vh" ./cmd/vh >"$OUT/log" 2>&1 ||
  go build -tags stacks -o "$OUT/vh" ./cmd/vh >"$OUT/log" 2>&1 ||
  go build -o "$OUT/vh" ./cmd/vh >"$OUT/log" 2>&1 || { cat "$OUT/log" >&2; echo "the harness does not build" >&2; exit 4; }
  cd /verif
}
# P15 also runs with the race detector
race() {
  if (cd /verif/harness && CGO_ENABLED=1 go build -race -o "$OUT/vhrace" ./cmd/vh) >"$OUT/log" 2>&1; then
    export VH_RACE="$OUT/vhrace"
  else
    echo "note: no race detector: $(tail -1 "$OUT/log")" >&2
  fi
}
# P16 runs the command
lint() {
  (cd /verif/harness && go build -o "$OUT/helium-lint" github.com/lestrrat-go/helium/cmd/helium-lint) >&2 || exit 4
  export VH_LINT="$OUT/helium-lint"
}
case "${1:-}" in
setup) build; race; lint; exit 0 ;;
replay)
  build
  if grep -q '"property": "P15"' "$2"; then race; fi
  if grep -q '"property": "P16"' "$2"; then lint; fi
  "$OUT/vh" replay "$2" || exit $?
  if [ -n "${VH_RACE:-}" ]; then GORACE="halt_on_error=1 exitcode=66" "$VH_RACE" replay "$2"; fi
  rc=$?
  if [ $rc = 66 ]; then echo "VIOLATION property=P15 replay=$2"; exit 1; fi
  exit $rc ;;
*) build; [ "$1" = P15 ] && race
  [ "$1" = P16 ] && lint
  "$OUT/vh" run "$1" "${2:-quick}"; exit $? ;;
esac

#!/bin/bash
# run.sh <property> <quick|thorough>   decide one property
# run.sh replay <file>                 re-execute a recorded violation
# run.sh setup                         build everything once
set -u
cd "$(dirname "$0")/mc" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=1 GOWORK=off
export VERIF_SEED="${VERIF_SEED:-1}"
VERIF_ROOT="$(cd .. && pwd)"; export VERIF_ROOT

out=$(mktemp -d /tmp/idm-verif-XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT

build() {
  case "$id" in
    C20|C23|C25) # these run the command itself
      (cd /repo && go build -o "$out/idmd" ./cmd/idmd) >&2 || { echo "build of idmd failed" >&2; exit 2; }
      export IDMD="$out/idmd" ;;
    C04|C14|C24) # these schedule the goroutines of instrumented packages
      go build -o "$out/instr" ./cmd/instr >&2 || { echo "build of instr failed" >&2; exit 2; }
      for level in 2 1; do
        mkdir -p "$out/instr$level"
        "$out/instr" /repo "$out/instr$level" $level >&2 &&
          go build -overlay "$out/instr$level/overlay.json" -ldflags "-X idmverif/lib/vsched.Level=$level" -o "$out/mc" ./cmd/mc >&2 && return
      done
      echo "the packages cannot be instrumented, continuing without" >&2 ;;
  esac
  go build -o "$out/mc" ./cmd/mc >&2 || { echo "build failed" >&2; exit 2; }
}

case "${1:-}" in
  setup)
    go build ./... || exit 2
    id=C04; build
    exit 0 ;;
  replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    build
    "$out/mc" replay "$2"; exit $? ;;
esac
id="${1:?property}"; tier="${2:-${VERIF_TIER:-quick}}"
build
"$out/mc" "$id" "$tier"
exit $?

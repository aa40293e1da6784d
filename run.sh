#!/bin/bash
# run.sh PROPERTY [quick|thorough] [gpsmon flags...]   run the monitor of one property
# run.sh --replay FILE                                 run the case of a replay file again
# run.sh --build                                       build both binaries (warms the build cache)
#
# Builds the harness against the working tree of ${GPSMON_REPO:-/repo}.
# Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${GPSMON_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOWORK=off CGO_ENABLED=1

work=$(mktemp -d "${TMPDIR:-/tmp}/gpsmon-build-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod" || exit 2
cp "$here/harness/go.sum" "$work/go.sum" || exit 2

build() { # build race|plain
    local flags=()
    [ "$1" = race ] && flags=(-race)
    (cd "$here/harness" && go build "${flags[@]}" -modfile="$work/go.mod" -o "$work/gpsmon-$1" .) ||
        { echo "run.sh: the harness does not build against $repo"; exit 2; }
}

if [ "${1:-}" = --build ]; then
    build plain
    build race
    echo "built $("$work/gpsmon-plain" -list | wc -l) monitors"
    exit 0
fi

extra=()
if [ "${1:-}" = --replay ]; then
    read -r prop tier seed case < <(python3 - "$2" <<'P'
import json, sys
v = json.load(open(sys.argv[1]))
print(v["property"], v["tier"], v["seed"], v["case"])
P
) || exit 2
    [ "$case" -ge 0 ] && extra=(-case "$case" -repeat "${REPEAT:-1}")
else
    prop=${1:?property}
    tier=${VERIF_TIER:-quick}
    shift
    case "${1:-}" in quick | thorough) tier=$1; shift ;; esac
    extra=("$@")
    seed=${VERIF_SEED:-1}
fi

build plain
bin=plain
if "$work/gpsmon-plain" -list -israce | grep -qx "$prop"; then
    build race
    bin=race
fi
"$work/gpsmon-$bin" -prop "$prop" -tier "$tier" -seed "$seed" -root "$here" "${extra[@]+"${extra[@]}"}"

#!/bin/bash
# Regenerates properties.jsonl and MANIFEST.json.
cd "$(dirname "$0")/.." || exit 1
python3 tools/props.py || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
b=$(mktemp) && (cd harness && go build -o "$b" .) && python3 tools/manifest.py "$b"; rm -f "$b"

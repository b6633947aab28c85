#!/bin/bash
# builds the verifier from the committed sources (offline, vendored)
cd "$(dirname "$(readlink -f "$0")")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p .bin
if [ -x .bin/gover ] && [ -z "$(find gover -newer .bin/gover -name '*.go' -print -quit)" ]; then exit 0; fi
cd gover && exec go build -mod=vendor -o ../.bin/gover .

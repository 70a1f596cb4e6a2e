#!/bin/bash
# builds the engine from the committed sources (a few seconds; skipped when up to date)
cd "$(dirname "$0")" || exit 3
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
if [ -x bin/engine ] && [ -z "$(find engine -newer bin/engine -name '*.go' -o -newer bin/engine -name 'go.*')" ]; then exit 0; fi
mkdir -p bin && cd engine && go build -o ../bin/engine.tmp.$$ . && mv ../bin/engine.tmp.$$ ../bin/engine

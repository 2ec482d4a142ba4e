#!/bin/bash
# Builds the verifier once, so that the Go build cache is warm and a broken build shows early.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
(cd gover && go build -o /dev/null . && go test -short .)

#!/bin/bash
# Builds the symbolic executor from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTELEMETRY=off
unset GOROOT
mkdir -p bin evidence out
cd engine && GOENV=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/veng.tmp . && mv ../bin/veng.tmp ../bin/veng

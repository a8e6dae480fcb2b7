#!/bin/bash
# Builds the engine into /verif/.build (offline, from committed files only).
set -e
cd "$(dirname "$0")"
mkdir -p .build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off GOENV=off
export GOCACHE="$PWD/.build/gocache" CGO_ENABLED=0
unset GOPATH
cd engine
go build -o ../.build/symgo.tmp.$$ . && mv ../.build/symgo.tmp.$$ ../.build/symgo

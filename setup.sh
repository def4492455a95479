#!/bin/sh
# Builds the transformer once, to check the toolchain and to warm the build
# cache; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/tool/xform"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
go build -o /dev/null .

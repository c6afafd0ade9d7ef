#!/bin/bash
# Builds the analyzer into /verif/bin (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p "$here/bin"
cd "$here/analyzer"
go build -o "$here/bin/an.$$" .
mv "$here/bin/an.$$" "$here/bin/an"

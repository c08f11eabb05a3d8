#!/bin/sh
# builds the analyser from the committed files, offline
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/tool"
go build -o "$here/bin/cv.$$" .
mv "$here/bin/cv.$$" "$here/bin/cv"

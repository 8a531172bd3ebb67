#!/bin/bash
# setup.sh: builds bin/gosym from gosym/ (offline) if it is missing or out of date.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
if [ -x "$here/bin/gosym" ] && [ -z "$(find "$here/gosym" -newer "$here/bin/gosym" -type f | head -1)" ]; then exit 0; fi
cd "$here/gosym"
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -trimpath -o "$here/bin/gosym.$$" .
mv "$here/bin/gosym.$$" "$here/bin/gosym"

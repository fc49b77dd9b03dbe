#!/bin/bash
# Builds the engine once so that later builds are incremental.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off CGO_ENABLED=0
cd "$here/engine" && go build -o /dev/null .

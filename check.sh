#!/bin/bash
# usage: check.sh CNN quick|thorough [engine flags]
# Builds the symbolic engine and decides property CNN on /repo's current tree.
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off CGO_ENABLED=0
tmp="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/gosym" .) || exit 2
export TMPDIR="$tmp"
"$tmp/gosym" -prop "$prop" -tier "$tier" -repo /repo -verif "$here" "$@"

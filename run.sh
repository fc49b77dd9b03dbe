#!/bin/bash
# Developer helper: build the engine and run one property. usage: run.sh CNN [tier] [flags]
. /opt/vp/env.sh; export GOSUMDB=off
cd /verif/engine && go build -o /tmp/gosym . || exit 2
p=$1; t=${2:-quick}; shift; shift
exec /tmp/gosym -prop $p -tier $t -repo /repo -verif /verif "$@"

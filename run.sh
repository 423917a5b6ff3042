#!/bin/bash
# run.sh ID... : builds the analyzer from the committed sources and decides the properties on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor
mkdir -p bin evidence
( cd analyzer && go build -o ../bin/analyzer . ) || exit 2
[ "$1" = build ] && exit 0
exec ./bin/analyzer "$@"

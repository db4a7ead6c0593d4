#!/bin/bash
# usage: run.sh PROPERTY...   (or "all")
# Builds the analyser from /verif/checker and decides the properties from the
# source in /repo's working tree. Nothing of /repo is executed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_HOME="$here" REPO="${REPO:-/repo}"
bin="$here/.bin"
mkdir -p "$bin" || exit 2
(cd "$here/checker" && go build -o "$bin/chk.$$" .) || { echo "ERROR: the analyser does not build"; exit 2; }
mv -f "$bin/chk.$$" "$bin/chk"
[ $# -eq 0 ] && exit 0
exec "$bin/chk" "$@"

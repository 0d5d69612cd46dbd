#!/bin/sh
# bin/replay.sh FILE: runs the failing case of a replay file on the current source of /repo.
case "$1" in /*) f=$1 ;; *) f=$PWD/$1 ;; esac
cd "$(dirname "$0")/.." || exit 2
[ -x build/govc ] || sh bin/setup.sh || exit 2
exec build/govc -root "$PWD" replay "$f"

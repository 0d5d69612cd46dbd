#!/bin/sh
# bin/check.sh C01: decides one property on the current source of /repo.
cd "$(dirname "$0")/.." || exit 2
[ -x build/govc ] || sh bin/setup.sh || exit 2
mkdir -p evidence
exec build/govc -root "$PWD" check "$1"

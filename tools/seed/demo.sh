#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
bash "$D/build_demo.sh" "$D" "$T" || exit 2
cd "$T" && timeout -s KILL ${LIMIT:-200} ./demo 2>demo.log
rc=$?
[ $rc = 0 ] || tail -5 demo.log
exit $rc

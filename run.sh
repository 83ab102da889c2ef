#!/bin/bash
# run.sh <property>: rebuild from the current working tree of /repo and decide
# the property. Exit 0 held, 1 violated, 2 the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. /opt/vp/env.sh
id="$1"
b="$PWD/.build"
mkdir -p "$b" "$PWD/evidence" || exit 2
# the only machine generated input of the checks is the library itself
case " $(cat conc.list | tr '\n' ' ') " in
*" $id "*) kind=conc ;;
*) kind=pure ;;
esac
if [ "$kind" = conc ]; then
  go build -o "$b/instr" ./cmd/instr || exit 2
  ov="$b/ov"
  mkdir -p "$ov" || exit 2
  "$b/instr" -out "$ov" || exit 2
  go build -overlay "$ov/overlay.json" -o "$b/conc" ./cmd/conc || exit 2
else
  go build -o "$b/pure" ./cmd/pure || exit 2
fi
if [ "${2:-}" = replay ]; then
  exec "$b/$kind" replay "$3"
fi
"$b/$kind" check "$id"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc

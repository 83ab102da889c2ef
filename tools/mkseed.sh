#!/bin/bash
# mkseed.sh <id> <edit.py>: make seeded/<id>/patch.diff by running edit.py in a
# scratch copy of /repo, then build, run the tests and the demonstration there.
set -eu
. /opt/vp/env.sh
id="$1"; edit="$(realpath "$2")"
s="/verif/seeded/$id"
w="$(mktemp -d /tmp/seedXXXXXX)"
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo"
cd "$w/repo"
[ -f "$s/demo.sh" ] && { bash "$s/demo.sh" >/dev/null 2>"$w/err" || { echo "demo fails on clean tree"; cat "$w/err"; exit 1; }; }
python3 "$edit"
git diff > "$w/p.diff"
[ -s "$w/p.diff" ] || { echo "no change"; exit 1; }
go build ./sttp/... ./examples/SimpleSubscribe ./examples/SimpleSubscribeReverse ./examples/SimpleResubscribe
git status --porcelain | grep '^??' && true
go test -vet=off -count=1 ./sttp/... 2>&1 | grep -v "no test files" | grep -v "^ok" && { echo "tests fail"; exit 1; }
mkdir -p "$s"; cp "$w/p.diff" "$s/patch.diff"
if [ -f "$s/demo.sh" ]; then
  if timeout 300 bash "$s/demo.sh"; then echo "DEMO DOES NOT FAIL WITH PATCH"; exit 1; else echo "demo fails with patch: good"; fi
fi

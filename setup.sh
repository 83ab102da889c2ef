#!/bin/bash
# Build every checker once so that the checks start from a warm cache.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p .build evidence || exit 2
go build -o .build/pure ./cmd/pure || exit 2
if [ -d cmd/conc ]; then
  go build -o .build/instr ./cmd/instr || exit 2
  mkdir -p .build/ov && .build/instr -out .build/ov || exit 2
  go build -overlay .build/ov/overlay.json -o .build/conc ./cmd/conc || exit 2
fi

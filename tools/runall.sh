#!/bin/sh
# tools/runall.sh [SEED] [SCALE]: every check once; summary per line
cd "$(dirname "$0")/.." || exit 1
mkdir -p /tmp/logs
for i in $(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
  VERIF_SEED=${1:-1} PZ_SCALE=${2:-1} ./check $i > /tmp/logs/$i-${1:-1}.log 2>&1
  echo "$i rc=$? $(cut -c1-700 /tmp/logs/$i-${1:-1}.log | head -8)"
done

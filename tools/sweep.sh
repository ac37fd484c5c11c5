#!/bin/sh
# tools/sweep.sh "SEEDS" [SCALE]: runs every check with each seed from a copy of the committed tree; summaries in /tmp/sweep/*.log
rm -rf /tmp/sweepcopy; mkdir -p /tmp/sweep
git -C /verif archive --prefix=sweepcopy/ HEAD | tar x -C /tmp
cd /tmp/sweepcopy || exit 1
mkdir -p replays
for s in $1; do
  for i in $(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
    VERIF_SEED=$s PZ_SCALE=${2:-1} ./check $i > /tmp/sweep/$i-$s.log 2>&1
    echo "$i seed=$s rc=$? $(cut -c1-900 /tmp/sweep/$i-$s.log | head -8)"
  done
done

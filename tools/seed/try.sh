#!/bin/bash
# try.sh ID [PROPERTY...]: builds the patched tree elsewhere and runs the checks (default: the bug's own property) against it.
ID=$1; shift
W=/tmp/try
if [ ! -d $W/target ]; then mkdir -p $W; cp -a /repo/. $W/; fi
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/$ID/patch.diff || exit 9
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
V=/tmp/tryverif; mkdir -p $V
rsync -a --delete --exclude .build --exclude .git --exclude seeded --exclude replays /verif/ $V/ 2>/dev/null || { rm -rf /tmp/tryverif; cp -a /verif $V; }
cd $V
for p in $P; do
  PZ_REPO=$W VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check $p >/tmp/try.$p.out 2>&1; r=$?
  if grep -q "^VIOLATION property=$p" /tmp/try.$p.out; then echo "$ID: $p CAUGHT: $(grep -m1 '^violated' /tmp/try.$p.out | cut -c1-220)"; else echo "$ID: $p missed (rc $r): $(tail -1 /tmp/try.$p.out | cut -c1-300)"; fi
done
cd $W && git checkout -q -- .

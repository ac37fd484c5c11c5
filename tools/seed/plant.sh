#!/bin/bash
# plant.sh ID: confirms /verif/seeded/ID in a scratch copy of /repo: applies, builds, tests pass, demo 0 without / nonzero with.
set -u
ID=$1
S=/verif/seeded/$ID
W=/tmp/plant
if [ ! -d $W/target ]; then mkdir -p $W; cp -a /repo/. $W/; fi
cd $W || exit 9
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
D=/tmp/plantdemo; rm -rf /tmp/plantdemo; cp -r $S $D; rm -f $D/patch.diff $D/meta.json
if [ "${2:-}" != "skip" ]; then
cargo build --offline -q 2>/tmp/plant.err || { cat /tmp/plant.err; exit 9; }
timeout 300 bash $D/demo.sh >/tmp/plant.out 2>&1; r=$?
[ $r = 0 ] || { echo "$ID: demo fails on the unchanged tree ($r)"; tail -5 /tmp/plant.out; exit 1; }
fi
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
cargo build --offline -q 2>/tmp/plant.err || { echo "$ID: build fails"; grep -A8 '^error' /tmp/plant.err | head -40; git checkout -q -- .; exit 1; }
cargo test --offline -q >/tmp/plant.test 2>&1 || { echo "$ID: tests fail"; tail -20 /tmp/plant.test; git checkout -q -- .; exit 1; }
grep -q '17 passed' /tmp/plant.test || { echo "$ID: not 17 passed"; }
timeout 300 bash $D/demo.sh >/tmp/plant.out 2>&1; r=$?
git checkout -q -- .
[ $r != 0 ] || { echo "$ID: demo passes with the patch"; exit 1; }
echo "$ID: confirmed ($r: $(tail -1 /tmp/plant.out | cut -c1-150))"

#!/bin/bash
# tools/seed.sh ID: validates seeded/ID in a scratch copy of /repo: applies, builds, stable tests pass, demo discriminates.
# With CHECK=1 also applies it to /repo, runs the check of its property, and undoes it.
set -u
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export DEMO_TARGET=/tmp/demo-target
W=/tmp/seed-wt
[ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $S/demo.sh >/tmp/seed.clean 2>&1; c=$?
[ $c = 0 ] || { echo "$1: demo fails on clean tree ($c)"; tail -20 /tmp/seed.clean; exit 1; }
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
( . /opt/vp/env.sh; cd $W; export CARGO_TARGET_DIR=/tmp/seed-target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 ) >/tmp/seed.tests 2>&1; t=$?
bash $S/demo.sh >/tmp/seed.patched 2>&1; d=$?
git checkout -q -- .
[ $t = 0 ] || { echo "$1: tests fail with the patch"; grep -E "FAILED|failed|error" /tmp/seed.tests | head; exit 1; }
[ $d != 0 -a $d != 99 ] || { echo "$1: demo does not discriminate ($d)"; tail -20 /tmp/seed.patched; exit 1; }
echo "$1: valid (property $P; demo: $(tail -1 /tmp/seed.patched | cut -c1-150))"
[ "${CHECK:-}" ] || exit 0
git -C /repo apply $S/patch.diff || exit 1
cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check.sh $P >/tmp/seed.check 2>/dev/null; r=$?
git -C /repo checkout -- .
echo "$1: check $P exit $r: $(grep -v KNOWN /tmp/seed.check | head -2 | cut -c1-220 | tr '\n' ' ')"

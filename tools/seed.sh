#!/bin/bash
# tools/seed.sh ID [check...]: confirm a planted bug in a scratch copy (builds, stable tests pass, demo 0 without and
# nonzero with the patch), then run the given checks (default: its property's) on /repo with the patch applied.
S=/tmp/w/sc; ID=$1; D=/verif/seeded/$ID; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
. /opt/vp/env.sh
if [ -z "$NOCONFIRM" ]; then
[ -d $S ] || cp -a /repo $S
cd $S || exit 1
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export CARGO_TARGET_DIR=$S/target
cargo test --workspace --no-run --offline >/tmp/w/seed.log 2>&1 || { echo "base build failed"; exit 1; }
bash $D/demo.sh >/tmp/w/demo0.log 2>&1; echo "$ID demo unchanged: $?"
git apply $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
cargo test --workspace --no-run --offline >/tmp/w/seed.log 2>&1 || { echo "$ID DOES NOT BUILD"; tail -20 /tmp/w/seed.log; git checkout -q -- .; exit 1; }
cargo test --workspace --offline >/tmp/w/seed.log 2>&1; echo "$ID tests: $? $(grep -c '^test .* ok$' /tmp/w/seed.log) ok, $(grep '^test .*FAILED' /tmp/w/seed.log | head -3)"
bash $D/demo.sh >/tmp/w/demo1.log 2>&1; echo "$ID demo patched: $? $(tail -1 /tmp/w/demo1.log | cut -c1-200)"
git checkout -q -- .
fi
unset CARGO_TARGET_DIR
[ -n "$CONFIRMONLY" ] && exit 0
git -C /repo apply $D/patch.diff || exit 1
for c in ${@:-$P}; do echo "$ID check $c: $(/verif/bin/check $c 2>&1 | tail -4 | cut -c1-400)"; done
git -C /repo checkout -q -- .

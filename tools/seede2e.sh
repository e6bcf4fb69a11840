#!/bin/bash
# seede2e.sh <id> <prop> <needs> <breaks>: demo.py on stdin; captures the diff of /tmp/sd/r as a seeded change whose demo drives the built
# server, and validates it: builds, stable tests pass, the demo passes with the clean binary and fails with the patched one.
trap "git -C /tmp/sd/r checkout -q -- ." EXIT; ID=$1; D=/verif/seeded/$ID; mkdir -p "$D"
[ -t 0 ] || cat > "$D/demo.py"
cp /verif/tools/e2e/sky.py /verif/tools/e2e/demo.sh "$D/"; chmod +x "$D/demo.sh"
git -C /tmp/sd/r diff > "$D/patch.diff"
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p /tmp/seedws; rsync -rl --checksum --delete --exclude=/.git --exclude=/target --exclude=/cli --exclude=/sky-bench /tmp/sd/r/ /tmp/seedws/
cd /tmp/seedws
sed -i -e 's/"cli", *//' -e 's/"sky-bench", *//' Cargo.toml; sed -i -e '/^skytable *= *{ *git *=/d' server/Cargo.toml; sed -i -e '/^mod client_misc;$/d' server/src/engine/tests/mod.rs
export CARGO_TARGET_DIR=/tmp/seedtarget
cargo build --workspace --offline > /tmp/se.build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/se.build.log; exit 1; }
cp /tmp/seedtarget/debug/skyd "/tmp/skyd.$ID"
S=$(mktemp -d); cp "$D"/demo.* "$D/sky.py" "$S/"
bash "$S/demo.sh" > /tmp/se.clean.log 2>&1; c=$?; tail -3 /tmp/se.clean.log
SKYD="/tmp/skyd.$ID" bash "$S/demo.sh" > /tmp/se.bad.log 2>&1; b=$?; tail -3 /tmp/se.bad.log
echo "clean=$c patched=$b"
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/se.test.log 2>&1
grep -E "^test result|FAILED|failed" /tmp/se.test.log | head
[ $c = 0 ] && [ $b != 0 ] && echo "SEED OK $ID" || echo "SEED BAD $ID"
git -C /tmp/sd/r checkout -q -- .

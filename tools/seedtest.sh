#!/bin/bash
# seedtest.sh <id> [--checks]: validates /verif/seeded/<id> in a scratch copy: patch applies, builds, stable tests pass,
# demo passes on the clean tree and fails with the patch.
ID=$1; SD=/verif/seeded/$ID
T=/tmp/seedtest.$ID; rm -rf "/tmp/seedtest.$ID"; mkdir -p "$T"
git -C /repo archive HEAD | tar -x -C "$T"
cd "$T" && git init -q . && git add -A >/dev/null && git -c user.name=x -c user.email=x@x commit -qm x
cp -r "$SD" "$T.seed"; 
echo "== $ID demo on clean tree"; ( cd "$T"; bash "$T.seed/demo.sh" > "$T.clean.log" 2>&1 ); c=$?; echo "clean rc=$c"
git apply "$SD/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
echo "== demo on patched"; ( cd "$T"; bash "$T.seed/demo.sh" > "$T.bad.log" 2>&1 ); b=$?; echo "patched rc=$b"; tail -5 "$T.bad.log"
if [ "$2" != "--notests" ]; then
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p /tmp/seedws; rsync -rl --checksum --delete --exclude=/.git --exclude=/target --exclude=/cli --exclude=/sky-bench "$T/" /tmp/seedws/
cd /tmp/seedws
sed -i -e 's/"cli", *//' -e 's/"sky-bench", *//' Cargo.toml; sed -i -e '/^skytable *= *{ *git *=/d' server/Cargo.toml; sed -i -e '/^mod client_misc;$/d' server/src/engine/tests/mod.rs
export CARGO_TARGET_DIR=/tmp/seedtarget
[ -d /tmp/seedtarget ] || cp -a /opt/vp/target /tmp/seedtarget
cargo build --workspace --offline > "$T.build.log" 2>&1 || { echo "BUILD FAILED"; tail -20 "$T.build.log"; exit 1; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > "$T.test.log" 2>&1
grep -E "^test result|FAILED|failed" "$T.test.log" | head
fi
[ $c = 0 ] && [ $b != 0 ] && echo "SEED OK $ID" || echo "SEED BAD $ID"
rm -rf "/tmp/seedtest.$ID" "/tmp/seedtest.$ID.seed"

#!/bin/bash
# Builds a scratch mirror of the tree in the current directory with the test module demo.rs (beside this
# script) added to the module named in its first line ("// module: <dir under server/src/engine>"), and runs it.
# Exit 0: the behaviour is right; non-zero: it is broken.
HERE=$(cd "$(dirname "$0")" && pwd)
SRC=$(pwd)
S=$(mktemp -d /tmp/skydemo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$S/target
mkdir -p "$S/ws" "$S/target"
rsync -rl --exclude=/.git --exclude=/target --exclude=/cli --exclude=/sky-bench "$SRC/" "$S/ws/" || exit 2
[ -d /opt/vp/target ] && rsync -a --exclude=incremental --exclude='skyd-*' --exclude='harness-*' --exclude='/debug/skyd' --exclude='/debug/harness' /opt/vp/target/ "$S/target/"
cd "$S/ws" || exit 2
sed -i -e 's/"cli", *//' -e 's/"sky-bench", *//' Cargo.toml
sed -i -e '/^skytable *= *{ *git *=/d' server/Cargo.toml
sed -i -e '/^mod client_misc;$/d' server/src/engine/tests/mod.rs
WHERE=$(sed -n '1s,^// module: *,,p' "$HERE/demo.rs")
M=server/src/engine/$WHERE
if [ -d "$M" ]; then cp "$HERE/demo.rs" "$M/vp_demo.rs"; F=$M/mod.rs; else D=${M%.rs}; mkdir -p "$D"; cp "$HERE/demo.rs" "$D/vp_demo.rs"; F=$M; fi
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$F"
timeout 280 cargo test -p skyd --offline vp_demo -- --test-threads 1 > "$S/log" 2>&1
rc=$?
tail -40 "$S/log"
# at least one test must have run
grep -Eq 'test result: .* ([1-9][0-9]*) (passed|failed)|[1-9][0-9]* passed|[1-9][0-9]* failed' "$S/log" || { echo "the demonstration did not run"; exit 3; }
exit $rc

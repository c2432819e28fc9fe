#!/bin/bash
# Builds posy, in a scratch directory, with demo.rs (beside this file) as its main program,
# and runs that: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=1 RUSTC_WRAPPER=
T=$(mktemp -d /tmp/posy-demo-XXXXXX)
trap 'find "$T" -depth -delete' EXIT
mkdir -p "$T/target/debug" "$T/home" "$T/work"
for d in .fingerprint build deps; do cp -a "/repo/target/debug/$d" "$T/target/debug/"; done
find "$T/target/debug/deps" -name 'posy-*' -delete
export POSY_VERIF_DRIVER=$here/demo.rs CARGO_TARGET_DIR=$T/target
cargo rustc --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin posy -- --cfg posy_verif -Awarnings || exit 3
cd "$T/work"
HOME=$T/home XDG_CACHE_HOME=$T/home DEMO=$here timeout 120 "$T/target/debug/posy"
rc=$?
echo "demo: exit $rc"
exit $rc

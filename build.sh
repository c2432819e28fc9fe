#!/bin/bash
# Builds posy from /repo's working tree with the verification driver compiled in, and the
# preload shim. Everything goes to /verif/build (git-ignored).
set -e
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= INSTA_UPDATE=no
cd "$(dirname "$0")"
V=$(pwd)
mkdir -p build
exec 9>build/.lock
flock 9
export CARGO_TARGET_DIR=$V/build/target
export POSY_VERIF_DRIVER=$V/harness/driver.rs
if [ ! -d build/target/debug/deps ] && [ -d /repo/target/debug/deps ]; then
  mkdir -p build/target
  cp -a --reflink=auto /repo/target/debug build/target/ || true
fi
# cargo trusts mtimes; we do not: rebuild whenever the contents changed
stamp=$( (cd /repo && find src Cargo.toml Cargo.lock pybi -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; cd "$V" && sha256sum harness/*.rs build.sh) | sha256sum)
if [ "$stamp" != "$(cat build/stamp 2>/dev/null)" ] || [ ! -x build/target/debug/posy ]; then
  rm -f build/stamp
  for d in "$V"/build/target/debug/.fingerprint/posy-*; do [ -d "$d" ] && find "$d" -depth -delete; done || true
  cargo rustc --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin posy -- --cfg posy_verif -Awarnings
  echo "$stamp" > build/stamp
fi
if [ harness/preload.c -nt build/preload.so ]; then
  gcc -O1 -g -fPIC -shared -o build/preload.so.tmp harness/preload.c -ldl -lpthread
  mv build/preload.so.tmp build/preload.so
fi

#!/bin/bash
# usage: run.sh ID      check one property against /repo's working tree (VERIF_TIER=quick|thorough)
#        run.sh build   only build
# exit 0 held, 1 VIOLATION, 2 no answer
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
for v in $(compgen -e | grep -E '^(CARGO_PROFILE_|CARGO_BUILD_|CARGO_ENCODED|RUSTC)' ); do unset "$v"; done
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/target" RUSTFLAGS="" CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RV_VERIF="$V"
mkdir -p "$V/target"
# builds of two runs must not mix
exec 9>"$V/target/.lock"
flock 9
# radixdb is always compiled again: the working tree decides, not file times
build_main() {
  cd "$V/harness" || exit 2
  for t in release p/plain c/cov; do rm -rf "$V"/target/$t/.fingerprint/radixdb-* "$V"/target/$t/.fingerprint/rv-*; done
  build() { CARGO_TARGET_DIR=$1 cargo build --offline --locked --quiet --profile "$2" >"$V/target/build-$2.log" 2>&1; }
  build "$V/target" release & p1=$!
  build "$V/target/p" plain & p2=$!
  CARGO_TARGET_DIR="$V/target/c" RUSTC_WRAPPER="$V/harness/cov.sh" \
    cargo build --offline --locked --quiet --profile cov --features cov >"$V/target/build-cov.log" 2>&1 & p3=$!
  wait $p1 || { cat "$V/target/build-release.log"; echo "build failed"; exit 2; }
  wait $p2 || { cat "$V/target/build-plain.log"; echo "build failed"; exit 2; }
  exes=("$V/target/release/rv" "$V/target/release/rv" "$V/target/p/plain/rv" "$V/target/c/cov/rv")
  wait $p3 || { cat "$V/target/build-cov.log"; echo "no guided build: going on without"; unset 'exes[3]'; }
}
# the browser crate, natively, with stand-ins for the browser
build_browser() {
  cd "$V/browser" || exit 2
  for t in b/release bp/plain; do rm -rf "$V"/target/$t/.fingerprint/{radixdb,sample,rv,rvb}-*; done
  exes=("$V/target/b/release/rvb" "$V/target/b/release/rvb" "$V/target/bp/plain/rvb")
  build() { CARGO_TARGET_DIR=$1 cargo build --offline --locked --quiet --profile "$2" >"$1.log" 2>&1; }
  build "$V/target/b" release & p1=$!
  build "$V/target/bp" plain & p2=$!
  wait $p1 || { tail -50 "$V/target/b.log"; echo "build of the browser crate failed"; return 1; }
  wait $p2 || { tail -50 "$V/target/bp.log"; echo "build of the browser crate failed"; return 1; }
}
case "${1:-}" in
  build) build_main; build_browser; exit 0 ;;
  C29|C30|C31) build_browser || exit 2 ;;
  *) build_main ;;
esac
exec 9>&-
cd "$V" || exit 2
exec "${exes[0]}" check "$1" "${exes[@]:1}"

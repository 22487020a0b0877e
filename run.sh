#!/bin/bash
# run.sh <property>: builds what the property needs of the harness against /repo's working
# tree, with and without debug assertions, and decides the property. run.sh build: builds
# all of it.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-07-01-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTFLAGS=-Csymbol-mangling-version=v0 RUSTC_WRAPPER= RUSTC_ICE=0
unset CARGO_PROFILE_DEV_DEBUG
here=$(cd "$(dirname "$0")" && pwd)
export MC_DIR=$here
export CARGO_TARGET_DIR=$here/mc/target
mkdir -p "$here/out" "$here/evidence"
cd "$here/mc" || exit 3
vec="vec_a vec_b vec_c vec_d"
case "$1" in
build) bins= ;;
C0[13459] | C12) bins="$vec astro" ;;
C02 | C06 | C08) bins=$vec ;;
C07) bins=amort ;;
C10) bins="iters_a iters_b iters_c iters_d astro" ;;
C11 | C18) bins="$vec traits" ;;
C13) bins=traits ;;
C14) bins="$vec conv astro" ;;
C15 | C16 | C17) bins="empl_a empl_b empl_c empl_d empl_lists empl_texts" ;;
*) echo "usage: run.sh build | C01..C18" >&2; exit 2 ;;
esac
what=
for b in mc $bins; do what="$what --bin $b"; done
[ "$1" = build ] && what=--bins
log=$here/out/build-$$
# a target directory can only be locked by one cargo at a time
cargo build -Zchecksum-freshness --offline --locked $what >"$log.dev" 2>&1 &
a=$!
CARGO_TARGET_DIR=$here/mc/target-rel cargo build -Zchecksum-freshness --offline --locked --release $what >"$log.rel" 2>&1 &
b=$!
wait $a; ra=$?
wait $b; rb=$?
if [ $ra != 0 ] || [ $rb != 0 ]; then
    echo "the harness does not build" >&2
    grep -hE -A12 '^error' "$log.dev" "$log.rel" | head -60 >&2
    rm -f "$log.dev" "$log.rel"
    exit 3
fi
rm -f "$log.dev" "$log.rel"
mkdir -p target/release
for b in mc ${bins:-$vec traits conv amort astro iters_a iters_b iters_c iters_d empl_a empl_b empl_c empl_d empl_lists empl_texts}; do
    cmp -s "target-rel/release/$b" "target/release/$b" ||
        { cp -f "target-rel/release/$b" "target/release/$b.new" && mv -f "target/release/$b.new" "target/release/$b"; }
done
[ "$1" = build ] && exit 0
exec target/debug/mc check "$1"

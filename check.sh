#!/bin/bash
# bash check.sh ID      builds the harness against /repo's working tree and decides one property
# bash check.sh --build builds only
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR
export HOME=${HOME:-/root}
export PATH=$PATH:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS
T=$VERIF_DIR/harness/target
mkdir -p "$T" || exit 2
# cargo decides by modification time; decide by content instead, so that a restored or
# checked-out tree with odd times is never judged by a stale build.
H=$(cd /repo && find common bddcore mddcore bss mss -path '*/target' -prune -o \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$T/repo.stamp" 2>/dev/null)" != "$H" ]; then
    (cd harness && cargo clean --release --offline -q -p relib-common -p relib-bdd -p relib-mdd -p relib-bss -p relib-mss -p harness 2>/dev/null)
    rm -f "$T/repo.stamp"
fi
# The checks that call single library functions directly are left out if their signatures changed.
build() { (cd harness && cargo build --release --offline --locked -q "$@") 2>"$T/build.log"; }
if ! build --features direct && ! build; then
    tail -40 "$T/build.log"
    echo "ERROR the harness does not build against /repo"
    exit 2
fi
echo "$H" > "$T/repo.stamp"
[ "$1" = "--build" ] && exit 0
# A runaway allocation ends as an abort of the worker (reported as a crash), not as an
# out-of-memory kill.
ulimit -v 20000000 2>/dev/null
exec "$T/release/harness" run "$1"

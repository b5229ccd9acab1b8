#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     run one check
#        check.sh replay FILE                   run the case of a violation again
#        check.sh setup                         build everything, run nothing
# Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" KMC_VERIF="$V"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
T="$V/target"
mkdir -p "$T" "$V/evidence"
build() {
  (cd "$V/mc" && RUSTFLAGS="--cfg koopa_mc -Awarnings" cargo build --release --offline --locked --target-dir "$T") >"$T/build.log" 2>&1 && return
  # without the checks of the lexer, the parser and the name manager
  case "${ID:-}" in F09 | F10 | B07) ;; *) (cd "$V/mc" && RUSTFLAGS="--cfg koopa_mc -Awarnings" cargo build --release --offline --locked --no-default-features --target-dir "$T/core") >"$T/core.log" 2>&1 && BIN="$T/core/release/kmc" && return ;; esac
  { echo "ENGINE ERROR: the harness does not build against /repo"; tail -60 "$T/build.log"; exit 2; }
}
build_nolog() {
  # the harness and the library without its front-end logger
  (cd "$V/mc" && RUSTFLAGS="--cfg koopa_mc -Awarnings" cargo build --release --offline --locked --no-default-features --features nolog --target-dir "$T/nolog") >"$T/nolog.log" 2>&1 ||
    { echo "ENGINE ERROR: the harness does not build against /repo without the logger"; tail -60 "$T/nolog.log"; exit 2; }
  BIN="$T/nolog/release/kmc"
}
build_c() {
  # the real C library and the C client, compiled against the published header
  (cd /repo && RUSTFLAGS="-Awarnings" cargo build --release --offline --locked -p libkoopa --target-dir "$T/lib") >"$T/lib.log" 2>&1 ||
    { echo "ENGINE ERROR: libkoopa does not build"; tail -60 "$T/lib.log"; exit 2; }
  gcc -O1 -g -w -shared -fPIC -I/repo/libkoopa/include -o "$T/libcclient.so" "$V/c/client.c" >"$T/c.log" 2>&1 ||
    { echo "ENGINE ERROR: the C client does not build against the header"; cat "$T/c.log"; exit 2; }
  gcc -O2 -w -shared -fPIC -o "$T/libqmalloc.so" "$V/c/qmalloc.c" || exit 2
  export KMC_LIBKOOPA="$T/lib/release/libkoopa.so" KMC_CCLIENT="$T/libcclient.so"
}
case "${1:-}" in
  setup) build; build_nolog; [ -e "$V/c/client.c" ] && build_c; exit 0 ;;
  replay) ID=$(sed -n 's/^property //p' "$2") ;;
  "") echo "usage: $0 PROPERTY TIER"; exit 2 ;;
  *) ID=$1 ;;
esac
BIN="$T/release/kmc"
case "$ID" in F08) ;; *) build ;; esac
case "$ID" in F08) build_nolog ;; C*) build_c; export LD_PRELOAD="$T/libqmalloc.so" ;; esac
if [ "$1" = replay ]; then
  exec "$BIN" replay "$2"
fi
exec "$BIN" run "$ID" "${2:-${VERIF_TIER:-quick}}"

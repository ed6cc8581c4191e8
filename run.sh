#!/bin/bash
# run.sh <property> quick|thorough
# run.sh <property> replay <engine> <case>      (VERIF_SEED, VERIF_TIER as in the replay file)
# run.sh build                                   (prebuild everything; used by setup_cmd)
# Rebuilds what it needs from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
REPO=/repo
B="$VERIF_DIR/.build"
mkdir -p "$B" evidence replays

# cargo judges freshness by modification times; the content decides here
repo_hash() {
    (cd "$REPO" && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1
}
# build <crate dir> <target dir> [cargo args]
build() {
    local crate=$1 td=$2; shift 2
    mkdir -p "$td"
    exec 9>"$td/.lock"; flock 9
    local h; h=$(repo_hash)
    if [ "$(cat "$td/.repo-hash" 2>/dev/null)" != "$h" ]; then
        find "$td" -maxdepth 4 -type d -path '*/.fingerprint/fourleaf-*' -exec rm -rf {} + 2>/dev/null
        echo "$h" >"$td/.repo-hash"
    fi
    local log="$td/build-$crate.log"
    if ! (cd "h/$crate" && RUSTFLAGS="--cap-lints allow $XFLAGS" cargo $TOOLCHAIN build --offline --quiet --target-dir "$td" "$@") >"$log" 2>&1; then
        echo "build of $crate failed:"; grep -A12 "^error" "$log" | head -60; tail -3 "$log"; exec 9>&-; return 1
    fi
    exec 9>&-
}

T=x86_64-unknown-linux-gnu
asan() { TOOLCHAIN=+nightly XFLAGS="-Zsanitizer=address" build chk "$B/asan" --target $T; }
# the standard library has to be instrumented as well
msan() { TOOLCHAIN=+nightly XFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" build chk "$B/msan" -Zbuild-std --target $T; }
tsan() { TOOLCHAIN=+nightly XFLAGS="-Zsanitizer=thread" build chk "$B/tsan" -Zbuild-std --target $T; }
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance"
miri_cmd="cargo +nightly miri run --offline --quiet --manifest-path $VERIF_DIR/h/chk/Cargo.toml --target-dir $B/miri --"
miri() {
    mkdir -p "$B/miri"
    exec 8>"$B/miri/.lock"; flock 8
    local h; h=$(repo_hash)
    if [ "$(cat "$B/miri/.repo-hash" 2>/dev/null)" != "$h" ]; then
        find "$B/miri" -maxdepth 4 -type d -path '*/.fingerprint/fourleaf-*' -exec rm -rf {} + 2>/dev/null
        echo "$h" >"$B/miri/.repo-hash"
    fi
    RUSTFLAGS="-Awarnings" $miri_cmd memrun 0 0 0 1 >"$B/miri/build.log" 2>&1
    local rc=$?
    exec 8>&-
    [ $rc = 0 ] || { echo "build for Miri failed:"; grep -A12 "^error" "$B/miri/build.log" | head -60; tail -3 "$B/miri/build.log"; return 1; }
}
# other machines: 32 bits, big-endian
# (undefined behaviour is C25's concern: without looking for it there is time for more)
PORT_FLAGS="$MIRIFLAGS -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"
port_cmd() { echo "cargo +nightly miri run --offline --quiet --target $1 --manifest-path $VERIF_DIR/h/chk/Cargo.toml --target-dir $B/miri-$1 --"; }
I686=i686-unknown-linux-gnu
S390X=s390x-unknown-linux-gnu
port() {
    local td="$B/miri-$1"
    mkdir -p "$td"
    exec 7>"$td/.lock"; flock 7
    local h; h=$(repo_hash)
    if [ "$(cat "$td/.repo-hash" 2>/dev/null)" != "$h" ]; then
        find "$td" -maxdepth 4 -type d -path '*/.fingerprint/fourleaf-*' -exec rm -rf {} + 2>/dev/null
        echo "$h" >"$td/.repo-hash"
    fi
    MIRIFLAGS="$PORT_FLAGS" RUSTFLAGS="-Awarnings" $(port_cmd $1) portrun 0 0 0 1 >"$td/build.log" 2>&1
    local rc=$?
    exec 7>&-
    [ $rc = 0 ] || { echo "build for Miri on $1 failed:"; grep -A12 "^error" "$td/build.log" | head -60; tail -3 "$td/build.log"; return 1; }
}
port32() { port $I686; }
portbe() { port $S390X; }
# runs the given builds side by side
together() {
    local p=() x
    for x in "$@"; do $x & p+=($!); done
    for x in "${p[@]}"; do wait "$x" || return 1; done
}
chk() { build chk "$B/t"; }

case "$1" in
build)
    chk && build strm "$B/r" --release && asan && msan && tsan && miri && port32 && portbe || exit 1
    exit 0 ;;
esac
id=$1; tier=${2:-quick}
case "$tier" in quick|thorough) export VERIF_TIER=$tier ;; esac
case "$id" in
C27)
    build chk "$B/t" || exit 2
    build strm "$B/r" --release || exit 2
    export VERIF_REL="$B/r/release/flstrm"
    exe="$B/t/debug/flcheck" ;;
C24)
    together chk tsan || exit 2
    export VERIF_TSAN="$B/tsan/$T/debug/flcheck"
    exe="$B/t/debug/flcheck" ;;
C25)
    together chk asan msan miri || exit 2
    export VERIF_ASAN="$B/asan/$T/debug/flcheck" VERIF_MSAN="$B/msan/$T/debug/flcheck"
    export VERIF_MIRI="$miri_cmd" RUSTFLAGS="-Awarnings"
    exe="$B/t/debug/flcheck" ;;
C30)
    together chk port32 portbe || exit 2
    export VERIF_MIRI32="$(port_cmd $I686)" VERIF_MIRIBE="$(port_cmd $S390X)" RUSTFLAGS="-Awarnings" MIRIFLAGS="$PORT_FLAGS"
    exe="$B/t/debug/flcheck" ;;
*)
    build chk "$B/t" || exit 2
    exe="$B/t/debug/flcheck" ;;
esac
case "$tier" in
replay) exec "$exe" "$id" replay "$3" "$4" ;;
*) exec "$exe" "$id" ;;
esac

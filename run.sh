#!/bin/bash
# ./run.sh ID            builds what the check needs from /repo's working tree and runs it
# ./run.sh ID thorough   the same, much longer
# ./run.sh setup         builds everything
# Exit 0: held. Exit 1: a VIOLATION line was printed. Anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
ID=${1:?usage: run.sh ID [thorough]}
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
mkdir -p "$V/target" "$V/work"
HOST=x86_64-unknown-linux-gnu
SOURCES=$( (cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V/harness" && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)

# build NAME WHAT...: cargo by content, not by time stamps
build() {
    local name=$1; shift
    local log=$V/work/build-$name.log
    local stamp=$V/target/stamp-$name
    exec 9>"$V/target/lock-$name"
    flock 9
    if [ "$(cat "$stamp" 2>/dev/null)" != "$SOURCES" ]; then
        : > "$stamp"
        case $name in
            cli) cargo clean --offline --locked --manifest-path /repo/Cargo.toml -p elm-parser --target-dir "$V/target/cli" ;;
            mon) cargo clean --offline --locked --manifest-path "$V/harness/Cargo.toml" -p elm-parser -p mon --release --target-dir "$V/target/mon" ;;
            *) cargo clean --offline --locked --manifest-path "$V/harness/Cargo.toml" -p elm-parser -p mon --release --target $HOST --target-dir "$V/target/$name" ;;
        esac >/dev/null 2>&1
        if ! "$@" >"$log" 2>&1; then
            grep -E "^error" -A7 "$log" | head -40
            echo "the build of $name failed, see $log"
            flock -u 9
            exit 2
        fi
        echo "$SOURCES" > "$stamp"
    fi
    flock -u 9
}
cli() { cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$V/target/cli"; }
mon() { RUSTFLAGS="--cfg elm_parser_verif" cargo build --release --offline --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$V/target/mon"; }
asan() { RUSTFLAGS="--cfg elm_parser_verif -Zsanitizer=address" cargo +nightly build --release --offline --locked --manifest-path "$V/harness/Cargo.toml" --target $HOST --target-dir "$V/target/asan"; }
tsan() { RUSTFLAGS="--cfg elm_parser_verif -Zsanitizer=thread" cargo +nightly build -Zbuild-std --release --offline --locked --manifest-path "$V/harness/Cargo.toml" --target $HOST --target-dir "$V/target/tsan"; }

if [ "$ID" = setup ]; then
    for k in mon cli asan tsan; do build $k $k; done
    exit 0
fi

build mon mon
S=$(mktemp -d /tmp/mon.XXXXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
chmod 755 "$S"
mkdir -p "$S/bins" "$S/scratch"
case $ID in
    C01|C19|C20|C21|C22)
        build cli cli
        cp "$V/target/cli/debug/elm-parser-dump" "$V/target/cli/debug/elm-parser-check" "$S/bins/" || exit 2 ;;
esac
case $ID in
    C01)
        build asan asan
        cp "$V/target/asan/$HOST/release/mon" "$S/bins/mon-asan" || exit 2 ;;
    C18)
        build tsan tsan
        cp "$V/target/tsan/$HOST/release/mon" "$S/bins/mon-tsan" || exit 2 ;;
esac
cp "$V/target/mon/release/mon" "$S/bins/mon" || exit 2
chmod -R a+rX "$S/bins"
export MON_VERIF=$V MON_BINS=$S/bins MON_ME=$S/bins/mon MON_ASAN=$S/bins/mon-asan MON_TSAN=$S/bins/mon-tsan MON_SCRATCH=$S/scratch MON_WORK=$V/work/run-$ID
export RUST_BACKTRACE=0
"$S/bins/mon" check "$ID"
exit $?

#!/bin/bash
# check.sh ID quick|thorough -- decides one property on /repo's working tree.
# check.sh --build           -- builds everything the checks need.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
VERIF=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
BUILD=$VERIF/.build
mkdir -p "$BUILD" "$VERIF/evidence" || exit 2

build() {
    # Cargo goes by time stamps; the content decides here.
    local sum
    sum=$(cd /repo && find src wadec-cli Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 2>/dev/null \
        | sort -z | xargs -0 sha256sum | sha256sum) || return 1
    if [ "$sum" != "$(cat "$BUILD/stamp" 2>/dev/null)" ]; then
        cargo clean -q --offline --release -p wadec --manifest-path harness/Cargo.toml --target-dir "$BUILD/harness" 2>/dev/null
        cargo clean -q --offline --release -p wadec -p wadec-cli --manifest-path /repo/Cargo.toml --target-dir "$BUILD/cli" 2>/dev/null
        rm -f "$VERIF/.build/stamp" "$VERIF/.build/cli-built"
    fi
    cargo build -q --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$BUILD/harness" >&2 || return 1
    if [ "$1" = cli ]; then
        cargo build -q --release --offline --locked -p wadec-cli --manifest-path /repo/Cargo.toml --target-dir "$BUILD/cli" >&2 || return 1
    fi
    echo "$sum" >"$BUILD/stamp"
}

# probe KIND... -- builds the probe (a small program that decodes a file of
# inputs) in these kinds at once, and says in WADEC_RUN_<KIND> how to run it.
# A kind that cannot be built here is left out; the check then says so.
NIGHTLY=nightly-x86_64-unknown-linux-gnu
probe() {
    local k jobs
    jobs=$(( ($(nproc) + $# - 1) / $# + 1 ))
    for k in "$@"; do
        probe_one "$k" "$jobs" >"$BUILD/probe-$k.log" 2>&1 &
    done
    wait
    for k in "$@"; do
        if [ -s "$BUILD/probe-$k.run" ]; then
            export "WADEC_RUN_${k^^}=$(cat "$BUILD/probe-$k.run")"
        else
            echo "check.sh: probe $k could not be built:" >&2
            tail -n 5 "$BUILD/probe-$k.log" >&2
        fi
    done
}
probe_one() {
    local k=$1 dir=$BUILD/probe-$1 host=x86_64-unknown-linux-gnu t
    rm -f "$BUILD/probe-$k.run"
    local c=(--offline --locked --manifest-path probe/Cargo.toml --target-dir "$dir")
    local b=("${c[@]}" -j "$2")
    local std=(--release -Zbuild-std=std -Zchecksum-freshness)
    case $k in
    release | dev)
        [ "$k" = release ] && t=--release || t=
        cargo clean -q --offline $t -p wadec --manifest-path probe/Cargo.toml --target-dir "$dir"
        cargo build $t "${b[@]}" || return
        echo "$dir/${k/dev/debug}/wadec-probe"
        ;;
    asan | msan | tsan)
        declare -A name=([asan]=address [msan]=memory [tsan]=thread)
        RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="-Zsanitizer=${name[$k]} -Cdebug-assertions=on" \
            cargo build "${b[@]}" "${std[@]}" --target $host || return
        echo "env ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=4000 TSAN_OPTIONS=halt_on_error=1 $dir/$host/release/wadec-probe"
        ;;
    x86)
        # there is a 32-bit C library to run with, but not to link against
        local l lib=$BUILD/lib32
        mkdir -p "$lib" || return
        for l in c m rt pthread util dl gcc_s; do
            ln -sfn "$(ls /usr/lib32/lib$l.so.* | head -n 1)" "$lib/lib$l.so" || return
        done
        RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="-Crelocation-model=static -Clinker=/usr/bin/ld -Clinker-flavor=ld -Clink-arg=-melf_i386 -Clink-arg=-L$lib -Clink-arg=--dynamic-linker=/lib/ld-linux.so.2" \
            cargo build "${b[@]}" "${std[@]}" --target i686-unknown-linux-gnu || return
        echo "$dir/i686-unknown-linux-gnu/release/wadec-probe"
        ;;
    miri*)
        # big-endian runs are about results, not about undefined behaviour
        local f=" -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
        case $k in
        miri) t=$host f= ;;
        miri_s390x) t=s390x-unknown-linux-gnu ;;
        miri_ppc) t=powerpc-unknown-linux-gnu ;;
        esac
        local e="RUSTUP_TOOLCHAIN=$NIGHTLY XDG_CACHE_HOME=$dir/cache MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks$f'"
        # a first run of nothing builds everything
        : >"$dir.none"
        t="cargo miri run -q --offline --locked --manifest-path $VERIF/probe/Cargo.toml --target-dir $dir --target $t -Zchecksum-freshness --"
        sh -c "env CARGO_BUILD_JOBS=$2 $e $t $dir.none" || return
        echo "env $e $t"
        ;;
    esac >"$BUILD/probe-$k.tmp"
    tail -n 1 "$BUILD/probe-$k.tmp" >"$BUILD/probe-$k.run"
}

if [ "${1:-}" = --build ]; then
    build cli
    exit
fi
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
C22 | C23) WHAT=cli ;;
*) WHAT=lib ;;
esac
if ! build $WHAT; then
    echo "check.sh: the build failed; no verdict on $ID" >&2
    exit 2
fi
case $ID in
C17) probe tsan ;;
C27) probe asan msan miri ;;
C28) probe release dev x86 miri_s390x miri_ppc ;;
esac
case $ID in
C17 | C22 | C23)
    # another clock and environment for the programs under watch
    gcc -shared -fPIC -O1 -o "$BUILD/shim.so" harness/shim.c >&2 && export WADEC_SHIM_LIB=$BUILD/shim.so
    ;;
esac
export WADEC_CLI=$BUILD/cli/release/wadec
WORK=$(mktemp -d "${TMPDIR:-/tmp}/wadec-check-XXXXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
"$BUILD/harness/release/wadec-monitor" run --property "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" \
    --evidence "$VERIF/evidence/$ID.json" --replays "$VERIF/replays" --work "$WORK" --known "$VERIF/known_findings.txt"
exit

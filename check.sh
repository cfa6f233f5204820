#!/bin/bash
# check.sh ID quick|thorough      run the check of a property against /repo's working tree
# check.sh ID replay FILE         run one recorded case again
# check.sh --build                build everything (setup)
set -u
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
cd "$(dirname "$0")" || exit 2
export RV_HOME=$PWD

# Builds the harness in a target directory ($1) with a profile ($2; rest: cargo arguments). Cargo decides by
# modification times; a content stamp makes sure that a change of /repo's sources that keeps their times is seen too.
build() {
    local target=$1 profile=$2; shift 2
    mkdir -p "$target"
    (
        flock 9
        local now stamp=$target/rpds.stamp
        now=$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
        if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
            (cd harness && cargo clean --offline --profile "$profile" -p rpds --target-dir "$OLDPWD/$target" >/dev/null 2>&1)
            echo "$now" > "$stamp"
        fi
        (cd harness && cargo build --profile "$profile" --offline --locked --target-dir "$OLDPWD/$target" "$@" > "$OLDPWD/$target/build.log" 2>&1)
    ) 9> "$target/lock"
    local rc=$?
    if [ $rc -ne 0 ]; then
        echo "build of $target failed" >&2
        grep -E '^error' -A 8 "$target/build.log" | head -40 >&2
    fi
    return $rc
}

# The builds of C23 with fewer features of rpds. Prints the name of one that cannot be built.
variants() {
    local v f p pids=()
    for v in none std serde rayon; do
        f=f_$v
        [ $v = none ] && f=
        build "harness/target/v-$v" variant --bin c23 --no-default-features --features "$f" &
        pids+=("$v $!")
    done
    local bad=
    for p in "${pids[@]}"; do
        wait "${p#* }" || bad=${p% *}
    done
    [ -z "$bad" ] || { echo "$bad"; return 1; }
}

if [ "${1:-}" = --build ]; then
    build harness/target release || exit 2
    build harness/target/deep deep --bin c17 || exit 2
    variants || exit 2
    exit 0
fi

id=${1:?property id}
mode=${2:-quick}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
exe=harness/target/release/$bin
if [ "$id" = C23 ]; then
    # the build with serde generates the cases for all
    exe=harness/target/v-serde/variant/c23
    if ! v=$(variants || variants); then
        build harness/target release --bin c02 || exit 2
        # rpds with all features can be built, but not with fewer
        v=${v##*$'\n'}
        mkdir -p replays
        cp "harness/target/v-$v/build.log" "replays/C23-build-$v.log"
        echo "C23: rpds cannot be built with the features: $v"
        echo "VIOLATION property=C23 replay=$PWD/replays/C23-build-$v.log"
        exit 1
    fi
else
    build harness/target release --bin "$bin" || exit 2
fi
if [ "$id" = C17 ]; then
    build harness/target/deep deep --bin c17 || exit 2
fi
case $mode in
    quick|thorough)
        export VERIF_TIER=$mode VERIF_SEED=${VERIF_SEED:-1}
        exec "$exe" check "$id" ;;
    replay)
        case ${3:-} in *.log) echo "rpds can be built in all feature configurations"; exit 0 ;; esac
        exec "$exe" replay "$id" "${3:?file}" ;;
    *) echo "unknown mode $mode" >&2; exit 2 ;;
esac

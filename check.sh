#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the harness against /repo's current tree, run one check.
# check.sh replay <file>: re-run one recorded violation (exit 1 while it still fails).
set -u
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$root/harness" || exit 3
export VERIF_ROOT="$root" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_BACKTRACE
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
# Cargo goes by file times; go by content as well, so that no stale build is ever used.
fresh() { # target-dir
    local dir="$root/harness/$1" now old
    now="$( { rustc -vV; cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum)"
    old="$(cat "$dir/repo.stamp" 2>/dev/null)"
    if [ "$now" != "$old" ] && [ -d "$dir" ]; then
        find "$dir" -type f -path '*fingerprint*' -path '*tree_iterators_rs*' -delete
    fi
    mkdir -p "$dir" && echo "$now" > "$dir/repo.stamp"
}
build_plain() {
    fresh target
    RUSTUP_TOOLCHAIN=stable cargo build --offline --bin vharness >"$log" 2>&1 || { grep -A12 -E '^error' "$log" >&2; tail -5 "$log" >&2; echo "ERROR: the harness does not build against /repo" >&2; exit 3; }
    bin=target/debug/vharness
}
build_asan() {
    fresh target/asan
    fresh target/miri
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="--cfg vheap -Zsanitizer=address" cargo build --offline --bin vharness \
        --target x86_64-unknown-linux-gnu --target-dir target/asan >"$log" 2>&1 || { grep -A12 -E '^error' "$log" >&2; tail -5 "$log" >&2; echo "ERROR: the AddressSanitizer build failed" >&2; exit 3; }
    bin=target/asan/x86_64-unknown-linux-gnu/debug/vharness
    export VH_ASAN=1 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:symbolize=1:detect_stack_use_after_return=1
}
if [ "${1:-}" = build ]; then
    build_plain
    build_asan
    RUSTUP_TOOLCHAIN=nightly MIRIFLAGS=-Zmiri-disable-isolation cargo miri run -q --offline --no-default-features --bin vmiri --target-dir target/miri >"$log" 2>&1 || { tail -5 "$log" >&2; exit 3; }
    exit 0
fi
if [ "${1:-}" = replay ]; then
    file="$(realpath "$2")"
    if grep -q '"property": *"C18"' "$file"; then build_asan; else build_plain; fi
    "$bin" replay "$file"
    exit $?
fi
id="${1:?usage: check.sh <property> [quick|thorough]}"
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$id" = C18 ]; then build_asan; else build_plain; fi
"$bin" check "$id" "$tier"

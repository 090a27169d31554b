#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then
# decide the property. Exit 0 held, 1 violated, anything else: no answer.
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
log="$ROOT/target/build-$id.log"
mkdir -p "$ROOT/target"
case "$id" in
C19 | C24)
    # A callback at every basic block of the implementation.
    export RUSTC_WRAPPER="$ROOT/tools/rustc_steps.sh"
    export CARGO_TARGET_DIR="$ROOT/target/steps"
    ;;
esac
if [ "$id" = C19 ]; then
    # What has to be shared by threads, by the auto traits of its type.
    if ! (cd "$ROOT/auto" && CARGO_TARGET_DIR="$ROOT/target/auto" RUSTC_WRAPPER= cargo check --offline --locked --quiet) >"$log" 2>&1; then
        if grep -qE 'error.*cannot be (sent|shared) between threads' "$log" && ! grep -E '^error' "$log" | grep -qvE 'cannot be (sent|shared) between threads|could not compile `auto`'; then
            mkdir -p "$ROOT/replays" "$ROOT/evidence"
            cp "$log" "$ROOT/replays/C19-auto.txt"
            grep -E '^error' "$log"
            echo "VIOLATION property=C19 replay=$ROOT/replays/C19-auto.txt"
            exit 1
        fi
        cat "$log" >&2
        echo "check.sh: building against /repo failed" >&2
        exit 2
    fi
fi
if ! (cd "$ROOT/mc" && cargo build --release --offline --locked --quiet) >"$log" 2>&1; then
    cat "$log" >&2
    echo "check.sh: building against /repo failed" >&2
    exit 2
fi
if [ "$id" = C07 ]; then
    # Also as the newest compiler and standard library that are here make it.
    new="$ROOT/target/features/newest"
    if (cd "$ROOT/mc" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$new" cargo build --release --offline --locked --quiet) >"$log" 2>&1; then
        echo "$id with $(RUSTUP_TOOLCHAIN=stable rustc --version)"
        rm -f "$new/counts"
        MC_FEATURES=newest MC_COUNTS="$new/counts" "$new/release/mc" part "$id" "$tier" || exit $?
        export MC_ALSO="$new/counts"
    else
        echo "$id is not built by the newest toolchain, see $log"
    fi
fi
exec "$CARGO_TARGET_DIR/release/mc" check "$id" "$tier"

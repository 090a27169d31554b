#!/bin/bash
# A rustc that compiles the crate `upon` with a callback at every basic block.
rustc="$1"
shift
case " $* " in
*" --crate-name upon "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
*" --crate-name mc "*)
    # Counts what it allocates and moves, too.
    exec "$rustc" "$@" --cfg counted
    ;;
esac
exec "$rustc" "$@"

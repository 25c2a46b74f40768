#!/bin/bash
# Instruments the code under test (and the generic parts of it compiled into the scenarios) so that
# the simulator can interrupt it at every branch.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
hydra|hydra_websockets|simnode)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
*) exec "$rustc" "$@" ;;
esac

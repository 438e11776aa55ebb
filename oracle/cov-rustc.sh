#!/bin/bash
# rustc, with edge coverage callbacks compiled into the crate under test only
rustc="$1"; shift
case " $* " in
*" --crate-name venial "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
esac
exec "$rustc" "$@"

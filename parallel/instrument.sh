#!/bin/sh
# rustc wrapper: the survey reports its branches, loads, stores and atomic operations to the simulator
case " $* " in
*" --crate-name parallel "*) exec "$@" "-Cpasses=tsan-module tsan sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
  -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg="$SHIM" ;;
esac
exec "$@"

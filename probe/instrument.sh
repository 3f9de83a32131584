#!/bin/sh
# rustc wrapper: the client program and the library it calls report branches, loads, stores and atomic operations to the simulator,
# so that their threads can be preempted there
case " $* " in
*" --crate-name probe "*) exec "$@" "-Cpasses=tsan-module tsan sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
  -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Clink-arg="$SHIM" ;;
*" --crate-name stringology "*) exec "$@" "-Cpasses=tsan-module tsan sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
  -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$@"

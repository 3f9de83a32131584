#!/bin/bash
# Builds the simulator and, from /repo's current working tree, all tools in the dev and the release profile.
# Everything is written below $SIM_BUILD (default: .build, which git ignores). Usage: build.sh [PROPERTY]: the client
# programs of the library are built only for the property that needs them (without an argument: all)
set -u
id=${1:-all}
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR LD_PRELOAD
here=$(cd "$(dirname "$0")" && pwd)
repo=${SIM_REPO:-/repo}
b=${SIM_BUILD:-$here/.build}
case $b in /*) ;; *) b=$PWD/$b ;; esac
mkdir -p "$b/log" || exit 70
exec 9>"$b/lock"; flock 9
# cargo decides by modification times; a tree put in place with old times must be noticed all the same
sum=$(cd "$repo" && find src Cargo.toml build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-64)
if [ -f "$b/tree" ] && [ "$(cat "$b/tree")" != "$sum" ]; then
  find "$repo/src" -name '*.rs' -newer "$b/tree" 2>/dev/null | grep -q . || {
    (cd "$repo" && CARGO_TARGET_DIR="$b/tools" cargo clean --offline -p stringology; CARGO_TARGET_DIR="$b/tools-rel" cargo clean --offline --release -p stringology) >/dev/null 2>&1
    (cd "$b/probe" && CARGO_TARGET_DIR="$b/probe-t" cargo clean --offline --release -p stringology; CARGO_TARGET_DIR="$b/probe-i" cargo clean --offline -p stringology) >/dev/null 2>&1
    (cd "$b/parallel" && CARGO_TARGET_DIR="$b/parallel-t" cargo clean --offline --release -p stringology -p parallel; CARGO_TARGET_DIR="$b/parallel-i" cargo clean --offline -p stringology -p parallel) >/dev/null 2>&1
  }
fi
(cd "$here/sim" && cargo build --release --offline --target-dir "$b/sim") >"$b/log/sim" 2>&1 & p1=$!
(cd "$repo" && CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --bins --target-dir "$b/tools") >"$b/log/dev" 2>&1 & p2=$!
(cd "$repo" && cargo build --offline --release --bins --target-dir "$b/tools-rel") >"$b/log/rel" 2>&1 & p3=$!
gcc -O2 -g -w -fPIC -shared -fno-builtin -fno-delete-null-pointer-checks -o "$b/libshim.so.new" "$here/sim/shim.c" -ldl >"$b/log/shim" 2>&1 && mv -f "$b/libshim.so.new" "$b/libshim.so" & p4=$!
# the client programs of the library: C27's own, and src/unfinished/parallel.rs for C28. In the dev profile they are instrumented.
client() { # NAME OPTIMISATION [EDITION]
  local d="$b/$1" f
  mkdir -p "$d"
  (cd "$here/$1" && find . -type f ! -path ./Cargo.toml ! -name instrument.sh) | while read -r f; do
    mkdir -p "$d/$(dirname "$f")"; cmp -s "$here/$1/$f" "$d/$f" || [ "$f" = ./Cargo.lock -a -e "$d/$f" ] || cp "$here/$1/$f" "$d/$f"
  done
  sed "s|/repo|$(cd "$repo" && pwd)|; s|^edition = .*|edition = \"${3:-2021}\"|" "$here/$1/Cargo.toml" > "$d/Cargo.toml.new"
  cmp -s "$d/Cargo.toml.new" "$d/Cargo.toml" || { mv "$d/Cargo.toml.new" "$d/Cargo.toml"; cp "$here/$1/Cargo.lock" "$d/Cargo.lock"; }
  (cd "$d" && cargo build --offline --release --target-dir "$b/$1-t") >"$b/log/$1" 2>&1 & local q=$!
  while [ ! -e "$b/libshim.so" ] && kill -0 $p4 2>/dev/null; do sleep 0.1; done
  (cd "$d" && SHIM="$b/libshim.so" RUSTC_WRAPPER="$here/$1/instrument.sh" CARGO_PROFILE_DEV_OPT_LEVEL=$2 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --target-dir "$b/$1-i") >"$b/log/$1-i" 2>&1
  local rc=$?
  if wait $q && [ $rc = 0 ]; then
    for x in "$1-i/debug:tools/debug" "$1-t/release:tools-rel/release"; do
      mkdir -p "$b/${x#*:}"; cmp -s "$b/${x%%:*}/$1" "$b/${x#*:}/$1" || { cp "$b/${x%%:*}/$1" "$b/${x#*:}/$1.new" && mv -f "$b/${x#*:}/$1.new" "$b/${x#*:}/$1"; }
    done
  elif [ $1 = parallel ] && [ -z "${3:-}" ]; then client $1 $2 2018 # the edition of a file that belongs to no target is open
  else rm -f "$b/tools/debug/$1" "$b/tools-rel/release/$1"; cat "$b/log/$1-i" >> "$b/log/$1"; fi
}
p5=; p6=
case $id in all|C27) client probe 1 & p5=$! ;; esac
case $id in all|C28) client parallel 2 & p6=$! ;; esac
bad=0
wait $p1 || { bad=1; echo "building the simulator failed"; tail -30 "$b/log/sim"; }
wait $p2 || { bad=1; echo "building the dev profile failed"; tail -30 "$b/log/dev"; }
wait $p3 || { bad=1; echo "building the release profile failed"; tail -30 "$b/log/rel"; }
wait $p4 || { bad=1; echo "building the shim failed"; cat "$b/log/shim"; }
wait $p5 $p6
[ $bad = 0 ] || exit 70
echo "$sum" > "$b/tree"

#!/bin/bash
# check.sh PROPERTY   (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
# Exit 0: the property held in every simulated run. Exit 1 with a VIOLATION line: it is broken. Anything else: the check itself failed.
id=${1:?usage: check.sh PROPERTY}; shift
here=$(cd "$(dirname "$0")" && pwd)
b=${SIM_BUILD:-$here/.build}
case $b in /*) ;; *) b=$PWD/$b ;; esac
"$here/build.sh" "$id" || { echo "HARNESS-ERROR: the build failed"; exit 70; }
case $id in C27) t=probe ;; C28) t=parallel ;; *) t= ;; esac
if [ -n "$t" ] && [ ! -x "$b/tools/debug/$t" -o ! -x "$b/tools-rel/release/$t" ]; then echo "HARNESS-ERROR: the client program does not build against the library"; tail -30 "$b/log/$t"; exit 70; fi
cd "$here" || exit 70
exec "$b/sim/release/simdriver" check --prop "$id" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --root "$here" \
  --dev "$b/tools/debug" --rel "$b/tools-rel/release" --shim "$b/libshim.so" "$@"

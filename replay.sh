#!/bin/bash
# replay.sh FILE: rebuilds from /repo and runs the worlds recorded in a replay file again, with their event traces.
# Exit 1 and the VIOLATION line if the violation shows again, 0 if the property holds on it now.
f=$(realpath "${1:?usage: replay.sh FILE}")
here=$(cd "$(dirname "$0")" && pwd)
b=${SIM_BUILD:-$here/.build}
"$here/build.sh" || { echo "HARNESS-ERROR: the build failed"; exit 70; }
exec "$b/sim/release/simdriver" replay --file "$f" --dev "$b/tools/debug" --rel "$b/tools-rel/release" --shim "$b/libshim.so"

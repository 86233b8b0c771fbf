#!/bin/bash
# check.sh <property> [more zdbsim options]: rebuild the simulator from the working tree of /repo and search one property
HERE=$(cd "$(dirname "$0")" && pwd)
P=$1; shift
V=plain; [ "$P" = C13 ] && V=asan
bash "$HERE/sim/build.sh" $V || { echo "check $P: build failed" >&2; exit 2; }
exec "$HERE/build/$V/zdbsim" check --property "$P" --root "$HERE" "$@"

#!/bin/bash
# replay.sh FILE: re-execute a replay file on /repo's current working tree
F=$(realpath "$1")
cd "$(dirname "$0")"
./build.sh || exit 2
ulimit -c 0
export DST_HOME="$PWD"
exec .build/target/release/dst replay "$F"

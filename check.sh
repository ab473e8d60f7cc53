#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current working tree
cd "$(dirname "$0")"
./build.sh "$1" || exit 2
ulimit -c 0
export DST_HOME="$PWD"
exec .build/target/release/dst check "$1"

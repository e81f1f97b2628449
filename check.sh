#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree, then the simulation of that property.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec 9>.lock && flock 9
bash build.sh || exit 2
flock -u 9
TDSIM_VERIF="$PWD" exec sim/target/release/tdsim check "$1"

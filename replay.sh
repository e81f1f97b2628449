#!/bin/bash
# replay.sh FILE: run a replay file against the current working tree of /repo. Exit 1 if the violation comes again.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
exec sim/target/release/tdsim replay "$f"

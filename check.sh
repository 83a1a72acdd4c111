#!/bin/bash
# check.sh PROPERTY quick|thorough
# Builds the simulator from /repo's current tree and explores the property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
. "$(dirname "$0")/sim/lib.sh"
sim=$(simulator_of "$1") || { echo "unknown property $1" >&2; exit 2; }
dir=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 2
trap 'rm -rf "$dir"' EXIT
build_simulator "$sim" "$dir" || { echo "build failed" >&2; exit 2; }
mkdir "$dir/scratch" && cd "$dir/scratch" || exit 2
VERIF_SCRATCH=$dir/scratch "$dir/$sim" check "$1" "${2:-${VERIF_TIER:-quick}}" "$verif"

#!/bin/bash
# replay.sh PROPERTY FILE: re-executes a replay file against /repo's current tree.
# Exit 1 with a VIOLATION line if it fails as recorded, 0 if the property held.  VERIF_VERBOSE=1 prints the event log.
. "$(dirname "$0")/sim/lib.sh"
sim=$(simulator_of "$1") || { echo "unknown property $1" >&2; exit 2; }
file=$(realpath "$2") || exit 2
dir=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 2
trap 'rm -rf "$dir"' EXIT
build_simulator "$sim" "$dir" || exit 2
mkdir "$dir/scratch" && cd "$dir/scratch" || exit 2
VERIF_SCRATCH=$dir/scratch "$dir/$sim" replay "$1" "$file"

#!/bin/bash
# Warms the build cache (the checks build by themselves; this only makes the first one faster).
. "$(dirname "$0")/sim/lib.sh"
dir=$(mktemp -d "${TMPDIR:-/tmp}/verif-sim.XXXXXX") || exit 1
trap 'rm -rf "$dir"' EXIT
for sim in core gen exp web; do
	build_simulator "$sim" "$dir" || exit 1
done
exit 0

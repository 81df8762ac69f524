#!/bin/bash
# bash run.sh <property> [--thorough]: rebuild the property's checker from /repo's working tree and run it.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
. mc/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/target"
id="$1"
pkg=$(awk -v i="$id" '$1==i{print $2}' checks.tsv)
[ -n "$pkg" ] || { echo "unknown property $id" >&2; exit 2; }
log=$(mktemp)
if ! (cd mc && python3 fresh.py "$CARGO_TARGET_DIR" && cargo build --release --offline -q -p "$pkg") >"$log" 2>&1; then
	tail -60 "$log" >&2
	rm -f "$log"
	echo "run.sh: $pkg does not build from /repo's working tree" >&2
	exit 4
fi
rm -f "$log"
"$CARGO_TARGET_DIR/release/$pkg" "$@"
rc=$?
case $rc in
101 | 134 | 136 | 139)
	# the code under test brought the whole checker down (a panic or signal outside the guarded calls)
	mkdir -p replays
	echo "{\"property\": \"$id\", \"key\": \"crash\", \"what\": \"exit code $rc\", \"command\": \"bash run.sh $*\"}" >"replays/$id-crash.json"
	echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id-crash.json"
	exit 1
	;;
esac
exit $rc

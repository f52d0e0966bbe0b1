#!/bin/bash
# check.sh <property id> [quick|thorough]: builds the check of a property against /repo's
# working tree and runs it. Exit 0: held; 1: VIOLATION; 2: no verdict (build problem, time limit).
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true VERIF_DIR="$here"
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
dir=harness
[ "$id" = C25 ] && dir=harness-uuid
[ "$id" = C26 ] && dir=harness-features # builds the library itself, with each set of features
log="$(mktemp)"
if ! (cd "$here/$dir" && cargo build -q --offline --locked --bin "$bin") >"$log" 2>&1; then
	grep -A12 '^error' "$log" | head -60
	# C25: the crate builds, but not with the features which hold the UUID generators
	if [ "$id" = C25 ] && grep -q '^error: could not compile `rdf-types`' "$log" && (cd "$here/harness" && cargo build -q --offline --locked --lib) >/dev/null 2>&1; then
		mkdir -p "$here/replays"
		cp "$log" "$here/replays/C25-build.txt"
		rm -f "$log"
		echo "VIOLATION property=C25 replay=$here/replays/C25-build.txt"
		exit 1
	fi
	rm -f "$log"
	echo "ERROR property=$id: the check does not build"
	exit 2
fi
rm -f "$log"
if [ "$tier" != thorough ] || [ "$dir" != harness ] || [ "$id" = C24 ]; then
	exec "$here/target/debug/$bin" "$tier"
fi
"$here/target/debug/$bin" thorough || exit $?
# second part of the thorough tier: the same check, driven by edge coverage
export CARGO_TARGET_DIR="$here/target/guided" triple="$(rustc -vV | sed -n 's/^host: //p')"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
if ! (cd "$here/harness" && cargo build -q --offline --locked --target "$triple" --bin "$bin") >/dev/null 2>&1; then
	echo "property $id: no coverage-guided search, this compiler does not build it"
	exit 0
fi
exec "$CARGO_TARGET_DIR/$triple/debug/$bin" guided

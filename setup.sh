#!/bin/bash
# Builds every check once from the committed files and /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" "$here/replays"
cd "$here/harness" && cargo build -q --offline --locked --bins
rc=$?
cd "$here/harness-features" && cargo build -q --offline --locked || rc=1
cd "$here/harness-uuid" && cargo build -q --offline --locked || true # C25 reports it
exit $rc

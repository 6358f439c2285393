#!/bin/bash
# check.sh ID  — build the harness against /repo's working tree and decide one property.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target/harness" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 LT_ROOT="$PWD"
# L22 meters the crate as a debug build has it
profile=release; [ "$1" = L22 ] && profile=plain
log=$(mktemp)
if ! cargo build --offline --profile $profile --locked --manifest-path harness/Cargo.toml >"$log" 2>&1; then
	tail -40 "$log" >&2; rm -f "$log"
	echo "HARNESS-ERROR: build failed" >&2
	exit 2
fi
rm -f "$log"
exec timeout -k 5 "${LT_TIMEOUT:-840}" "$CARGO_TARGET_DIR/$profile/lt" run "$1"

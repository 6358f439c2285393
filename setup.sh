#!/bin/bash
# Builds the harness, the four feature builds and the sanitized and interpreted walks from the committed files, offline.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/target/harness" cargo build --offline --release --locked --manifest-path harness/Cargo.toml || exit 1
CARGO_TARGET_DIR="$PWD/target/harness" cargo build --offline --profile plain --locked --manifest-path harness/Cargo.toml || exit 1
for c in none: std:std serde:serde std-serde:"std serde"; do
	CARGO_TARGET_DIR="$PWD/target/conf-${c%%:*}" cargo build --offline --release --locked \
		--manifest-path confdiff/Cargo.toml --features "${c#*:}" || exit 1
done
RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$PWD/target/ub-asan" cargo +nightly build --offline --release --locked \
	--target x86_64-unknown-linux-gnu --manifest-path ubcheck/Cargo.toml || exit 1
MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR="$PWD/target/ub-miri" cargo +nightly miri run --offline --locked \
	--manifest-path ubcheck/Cargo.toml </dev/null || exit 1
mkdir -p evidence replays

#!/bin/sh
# Build everything once; the checks rebuild what /repo's tree changed.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replays
cargo build --release --offline --locked --manifest-path mc/Cargo.toml --target-dir target
cargo build --release --offline --manifest-path /repo/Cargo.toml --locked -p wadec-cli --target-dir target/cli

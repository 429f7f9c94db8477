#!/bin/sh
# check.sh Cxx: build the model checker against /repo's current tree and decide
# one property. Exit 0: holds on everything explored; 1: VIOLATION; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$here" CARGO_NET_OFFLINE=true
build() {
    cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" --target-dir "$here/target" &&
    { [ "$1" != C18 ] || cargo build --release --offline --manifest-path /repo/Cargo.toml --locked -p wadec-cli --target-dir "$here/target/cli"; }
}
if ! out=$(build "$1" 2>&1); then
    printf '%s\n' "$out" | tail -40 >&2
    echo "check.sh: cannot build" >&2
    exit 2
fi
export MC_CLI="$here/target/cli/release/wadec"
exec "$here/target/release/mc" "$1"

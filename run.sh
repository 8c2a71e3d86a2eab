#!/bin/bash
# bash run.sh <ID>: build the harness against /repo's working tree and run one check.
# Exit 0: held on everything explored; 1: violation; anything else: no answer.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/harness/target" FSIM_HOME="$PWD"
# the command line tool is only built for its own check
build() {
    out=$(cargo build --release --offline --locked --manifest-path harness/Cargo.toml "$@" 2>&1) || { echo "$out" | tail -40; echo "build failed"; exit 3; }
}
cli() { export CARGO_TARGET_DIR="$PWD/harness/target-cli"; build --features cli; }
case $1 in
build) build; cli; exit 0 ;;
C16) cli ;;
*) build ;;
esac
exec "$CARGO_TARGET_DIR/release/fsim" check "$1"

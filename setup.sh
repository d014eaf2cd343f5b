#!/bin/bash
# Builds the harness (and its dependencies) once; the checks rebuild what changed in /repo.
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/target/debug/deps"
cargo build --offline --manifest-path "$here/harness/Cargo.toml"
# the build C46 compares with
cargo build --offline --manifest-path "$here/harness/Cargo.toml" --profile plain --no-default-features --features c45,c46,plain --bin vhplain
# SDL2 for the check of the display window
exec cargo build --offline --manifest-path "$here/harness/Cargo.toml" --features c42

#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--replay FILE] [--only SUBSTR]
# Builds the harness for one property from /repo's working tree and runs it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
id="$1"
feat="$(echo "$id" | tr 'A-Z' 'a-z')"
[ -d "$here/target/debug" ] && echo "build: warm" || echo "build: cold"
log="$here/target/build-$id.log"
# sdl2-sys copies its library to target/debug/deps, which recent cargo does not create
mkdir -p "$here/target/debug/deps"
if ! cargo build --offline --manifest-path "$here/harness/Cargo.toml" --features "${VH_FEATURES:-$feat}" >"$log" 2>&1; then
    echo "check $id: the harness did not build" >&2
    tail -60 "$log" >&2
    exit 2
fi
if [ "$id" = C45 ] || [ "$id" = C46 ]; then # the second build, compared against
    if ! cargo build --offline --manifest-path "$here/harness/Cargo.toml" --profile plain --no-default-features --features c45,c46,plain --bin vhplain >>"$log" 2>&1; then
        echo "check $id: the second build failed" >&2
        tail -60 "$log" >&2
        exit 2
    fi
fi
if [ "$id" = C42 ]; then # the SDL2 library built along with the harness
    export LD_LIBRARY_PATH="$here/target/debug${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
fi
# A case that never stops allocating must end as a failed allocation, not as a killed process.
ulimit -v 16000000
exec "$here/target/debug/vh" "$@"

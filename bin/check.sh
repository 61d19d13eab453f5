#!/bin/bash
# Usage: check.sh <property> [quick|thorough] [options of the harness: --seed N, --cases N, --secs N, --replay FILE]
#
# Builds the harness against the working tree of the repository and runs the check of a property.
# Exits with 0 if it held, 1 after a VIOLATION line, and 2 if there's no answer.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"
tier=quick
shift
case "$1" in quick | thorough) tier="$1"; shift ;; esac
case "$id" in
    C19 | C20 | C21 | C22 | C23 | C29 | C32) crate=net ;;
    *) crate=core ;;
esac
log="$(mktemp)"
trap 'rm -f "$log" "$log.so"' EXIT
build() {
    if ! cargo build --offline --locked "$@" >"$log" 2>&1; then
        cat "$log" >&2
        echo "the build failed" >&2
        exit 2
    fi
}
build --manifest-path "$VERIF/harness/$crate/Cargo.toml"
if [ "$crate" = net ]; then
    # The server and the command line, as they're shipped.
    (
        export CARGO_TARGET_DIR="$VERIF/harness/target-server"
        build --manifest-path "$REPO/Cargo.toml" -p hop-server -p hop-cli
    ) || exit 2
    export HOP_SERVER="$VERIF/harness/target-server/debug/hop-server"
    export HOP_CLI="$VERIF/harness/target-server/debug/hop-cli"
    gcc -O1 -Wall -shared -fPIC -o "$log.so" "$VERIF/harness/net/shim/sockaddr.c" -ldl || exit 2
    export LD_PRELOAD="$log.so"
fi
"$CARGO_TARGET_DIR/debug/$crate-checks" --check "$id" --tier "$tier" --repo "$REPO" --verif "$VERIF" "$@"
code=$?
case $code in 0 | 1) exit $code ;; *) exit 2 ;; esac

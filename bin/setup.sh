#!/bin/bash
# Builds the harness once, so that the first check doesn't have to.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
for crate in core net; do
    [ -f "$VERIF/harness/$crate/Cargo.toml" ] || continue
    cargo build --offline --locked --manifest-path "$VERIF/harness/$crate/Cargo.toml" || exit 1
done
if [ -f "$VERIF/harness/net/Cargo.toml" ]; then
    CARGO_TARGET_DIR="$VERIF/harness/target-server" cargo build --offline --locked --manifest-path "$REPO/Cargo.toml" -p hop-server -p hop-cli || exit 1
fi

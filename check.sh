#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuilds from /repo's working tree and checks one property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
log="$(mktemp)"
if ! (cd "$VERIF/sim" && cargo build --offline -q) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "error: build failed" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/asim" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" "$VERIF"

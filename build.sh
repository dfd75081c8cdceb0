#!/bin/bash
# Builds the simulator and, instrumented, the library from /repo's working tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF/sim" && exec cargo build --offline "$@"

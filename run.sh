#!/bin/bash
# run.sh check C01 | replay FILE | prove C01 [N] | one C01 INDEX
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_ROOT" && exec "$PY" -m vsim.driver "$@"

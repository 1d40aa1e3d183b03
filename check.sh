#!/bin/bash
# ./check.sh PROPERTY            run one check (VERIF_SEED, VERIF_TIER)
# ./check.sh --replay FILE       re-execute a recorded violation
exec node "$(cd "$(dirname "$0")" && pwd)/sim/js/driver.js" "$@"

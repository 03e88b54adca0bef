#!/bin/bash
# check.sh <ID>: rebuild from /repo and decide one property. VERIF_SEED and VERIF_TIER as given.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
exec sim/target/release/atsim check "$1"

#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's working tree. VERIF_SEED selects the seeds.
# check.sh replay FILE: replays one recorded violation.
if [ "$1" = replay ]; then file=$(readlink -f "$2"); fi
cd "$(dirname "$(readlink -f "$0")")/sim" || exit 2
if [ "$1" = replay ]; then exec ../d.sh core/replay.ts "$file"; fi
exec ../d.sh core/check.ts "$@"

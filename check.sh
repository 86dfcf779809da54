#!/bin/sh
# check.sh <property> [quick|thorough] : decide one property on /repo's current
# working tree. VERIF_TIER selects the bounds when they are not given.
cd "$(dirname "$0")" || exit 2
sh ./setup.sh || exit 2
exec ./bin/gosym -dir "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"

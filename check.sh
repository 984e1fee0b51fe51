#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]    (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec python -m dsim.runner "$1" --tier "$VERIF_TIER"

#!/bin/bash
# usage: replay.sh REPLAYFILE     re-executes a recorded violation; exit 1 if it reproduces, 0 if it does not
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec python -m dsim.replay "$1"

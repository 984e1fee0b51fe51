#!/bin/bash
# nothing to compile: checks that the interpreter, the code under test and the simulator import
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence replays
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. python -c "
from dsim import worker, meta
import coax, os
assert os.path.abspath(coax.__file__).startswith('/repo/'), coax.__file__
print('ok', coax.__version__, len(meta.PROPS), 'checks')"

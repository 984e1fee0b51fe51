#!/bin/bash
# ad-hoc mutation trial: tools/mut.sh FILE 'python expression on s' PROP...
# Runs the checks against a scratch copy of /repo, bind-mounted over /repo in a private mount namespace: /repo itself is not touched.
if [ -z "$MUT_INNER" ]; then
    W=$(mktemp -d /tmp/mut-XXXXXX)
    cp -a /repo "$W/repo"; mkdir -p "$W/evidence" "$W/replays"
    MUT_INNER=$W unshare -Urm bash "$0" "$@"
    rc=$?
    rm -rf "$W"
    exit $rc
fi
mount --bind "$MUT_INNER/repo" /repo || exit 9
mount --bind "$MUT_INNER/evidence" /verif/evidence || exit 9
mount --bind "$MUT_INNER/replays" /verif/replays || exit 9
f=$1; expr=$2; shift 2
if [ "$f" = "--patch" ]; then
    git -C /repo apply "$expr" || exit 9
else
python3 - "$f" "$expr" <<'P' || exit 9
import sys
p='/repo/'+sys.argv[1]; s=open(p).read(); o=s
s=eval(sys.argv[2])
assert s!=o, "mutation did not apply"
open(p,'w').write(s)
P
fi
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd /verif
for c in "$@"; do if [ -n "$MUT_FIRST" ]; then python -m dsim.runner $c --tier quick --first; else bash /verif/check.sh $c; fi 2>&1 | grep -E "^\[dsim\] [a-z:A-Z-]+:|VIOLATION prop|harness|held" | cut -c1-250; done

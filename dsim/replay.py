""" python -m dsim.replay FILE: re-execute a replay file in a fresh process """
import json
import sys

from dsim.runner import replay_once


def main():
    path = sys.argv[1]
    with open(path) as f:
        rep = json.load(f)
    r = replay_once(rep['property'], path)
    if r is None:
        print("replay failed to execute", file=sys.stderr)
        sys.exit(2)
    for e in r['events']:
        print(e)
    if r['kind'] is None:
        print("no violation")
        sys.exit(0)
    same = "identical execution" if r['dig'] == rep.get('digest') else "execution differs from the recorded one"
    print(f"{r['kind']}: {r['msg']} ({same})")
    print(f"VIOLATION property={rep['property']} replay={path}")
    sys.exit(1)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
""" ad-hoc mutation trials:  mutbatch.py SPEC.py [NAME..]   SPEC: M = [(name, 'C01 C02', [(path, old, new), ...]), ...] """
import difflib, os, subprocess, sys, tempfile, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]

from concurrent.futures import ThreadPoolExecutor


def trial(item):
    name, props, edits = item
    out = {}
    for path, old, new in edits:
        s = out.get(path) or open('/repo/' + path).read()
        if s.count(old) != 1:
            print(f"{name}: pattern occurs {s.count(old)} times in {path}", flush=True)
            return
        out[path] = s.replace(old, new)
    diff = ''
    for path, s in out.items():
        diff += ''.join(difflib.unified_diff(open('/repo/' + path).read().splitlines(True), s.splitlines(True), 'a/' + path, 'b/' + path))
    f = tempfile.mktemp(suffix='.diff')
    open(f, 'w').write(diff)
    for prop in props.split():
        t = time.time()
        r = subprocess.run(['bash', '/verif/tools/mut.sh', '--patch', f, prop], capture_output=True, text=True, env=dict(os.environ, MUT_FIRST='1', DSIM_WORKERS=os.environ.get('DSIM_WORKERS', '4'), VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        lines = r.stdout.strip().splitlines()
        caught = any(x.startswith(('VIOLATION', '[dsim] first:')) for x in lines)
        print(f"{name:28s} {prop} {'CAUGHT' if caught else 'missed' if any('held' in x for x in lines) else '??'} {time.time() - t:.0f}s  {lines[0][:150] if lines else r.stderr[-200:]}", flush=True)
    os.unlink(f)


with ThreadPoolExecutor(int(os.environ.get('JOBS', 2))) as ex:
    list(ex.map(trial, [m for m in ns['M'] if not want or m[0] in want]))

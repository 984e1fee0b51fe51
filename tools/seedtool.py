#!/usr/bin/env python3
"""
Planted bugs.   seedtool.py new SPECS.py [ID..]    write seeded/<id>/ from a list of specs (BUGS)
                seedtool.py verify [--no-tests] [ID..]   apply to /repo, run tests, demo and the property's quick check, undo
"""
import json, os, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO = '''#!/bin/bash
# run with cwd /repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec timeout 280 python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def new(specs, ids):
    ns = {'specs': specs}
    exec(open(specs).read(), ns)
    for b in ns['BUGS']:
        if ids and b['id'] not in ids:
            continue
        assert sh('git -C /repo status --porcelain').stdout == ''
        for path, old, rep in b['edits']:
            p = os.path.join('/repo', path)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], path, s.count(old), old)
            open(p, 'w').write(s.replace(old, rep))
        diff = sh('git -C /repo diff').stdout
        sh('git -C /repo checkout -- .')
        out = os.path.join(SEEDED, b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip())
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print('wrote', b['id'])


def verify(ids, tests=True):
    ok_all = True
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        assert sh('git -C /repo status --porcelain').stdout == ''
        clean = sh(f'cd /repo && bash {d}/demo.sh')
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr[:200]); continue
        try:
            passed = '-'
            if tests:
                t = tempfile.mktemp(suffix='.json')
                sh(f'bash /opt/vp/test.sh {t}')
                base = json.load(open('/opt/vp/BASELINE.json'))
                want = set(base.get('stable', base.get('passed', [])) if isinstance(base, dict) else base)
                got = json.load(open(t)); os.remove(t)
                gp = set(got.get('passed', []))
                passed = f"{len(want & gp)}/{len(want)}"
            demo = sh(f'cd /repo && bash {d}/demo.sh')
            t0 = time.time()
            chk = sh(f'cd {VERIF} && bash check.sh {prop} quick')
            dt = time.time() - t0
        finally:
            sh('git -C /repo checkout -- .')
        caught = chk.returncode == 1 and f'VIOLATION property={prop} ' in chk.stdout
        kind = [l for l in chk.stdout.splitlines() if l.startswith('[dsim] ')]
        print(f"{i}: prop={prop} clean_demo={clean.returncode} bug_demo={demo.returncode} tests={passed} "
              f"caught={caught} rc={chk.returncode} {dt:.0f}s {kind[1][:140] if len(kind) > 1 else ''}", flush=True)
        if clean.returncode:
            print('   clean demo:', (clean.stdout + clean.stderr)[-600:])
        if not demo.returncode:
            print('   bug demo passes')
        if not caught:
            print('   ', (chk.stdout + chk.stderr)[-800:])
        ok_all &= caught
        rp = os.path.join(VERIF, 'tools', 'bugs', 'results.json')
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        what = [l[7:].split(':')[0] for l in chk.stdout.splitlines() if l.startswith('[dsim] ') and ':' in l and not l.startswith(('[dsim] property', '[dsim] violated', '[dsim] trace'))]
        res[i] = (what[0] if what else 'violation') if caught else None
        json.dump(dict(sorted(res.items())), open(rp, 'w'), indent=1)
    return ok_all


def private():
    """ go on in a private mount namespace, with a scratch copy of /repo in place of /repo """
    if 'SEED_INNER' not in os.environ:
        w = tempfile.mkdtemp(prefix='seed-')
        sh(f'cp -a /repo {w}/repo; mkdir {w}/evidence {w}/replays')
        try:
            rc = subprocess.run(['unshare', '-Urm', sys.executable, *sys.argv], env=dict(os.environ, SEED_INNER=w)).returncode
        finally:
            sh(f'rm -rf {w}')
        sys.exit(rc)
    w = os.environ['SEED_INNER']
    for a, b in (('repo', '/repo'), ('evidence', f'{VERIF}/evidence'), ('replays', f'{VERIF}/replays')):
        subprocess.run(['mount', '--bind', f'{w}/{a}', b], check=True)


if __name__ == '__main__':
    private()
    cmd, *args = sys.argv[1:]
    if cmd == 'new':
        new(args[0], args[1:])
    else:
        tests = '--no-tests' not in args
        verify([a for a in args if not a.startswith('--')], tests)

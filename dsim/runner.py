"""
Decides one property:  python -m dsim.runner PROP [--tier quick|thorough] [--seed N]

exit 0: held on everything explored;  exit 1 + VIOLATION line: violated;  exit 2: the check itself failed.
"""
import argparse
import atexit
import json
import os
import re
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from dsim.meta import PROPS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', JAX_PLATFORM_NAME='cpu',
        XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3',
        PYTHONPATH=VERIF, SDL_VIDEODRIVER='dummy')
    e.setdefault('PYTHONHASHSEED', '0')
    return e


_scratch = None


def scratch():
    """ a scratch directory for everything that the workers write; removed at exit """
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='dsim-', dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def start(prop, *args):
    return subprocess.Popen(
        [sys.executable, '-m', 'dsim.worker', prop, *map(str, args)],
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=VERIF, env=dict(env(), TMPDIR=scratch()))


def replay_once(prop, path, timeout=400):
    p = start(prop, 'replay', path)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return None
    for line in out.decode().splitlines():
        m = json.loads(line)
        if m['t'] == 'replay':
            return m
        if m['t'] == 'error':
            print(m['tb'], file=sys.stderr)
    return None


def known_findings():
    """ lines: 'finding: property=<id> kind=<violation class> match=<regex> -- <what fails>' ('fixed:' lines suppress nothing) """
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding:\s+property=(\S+)\s+kind=(\S+)\s+match=(\S+)\s+--\s+(.*)', line)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('DSIM_WORKERS', 8)))
    ap.add_argument('--digests', help="write run digests to this file")
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--first', action='store_true', help="stop at the first violation and do not minimise it (for mutation trials)")
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    meta = PROPS[a.prop]
    count = a.runs or meta['runs'][tier]
    deadline = {'quick': 300, 'thorough': 3600}[tier]
    t0 = time.time()
    print(f"[dsim] property={a.prop} tier={tier} VERIF_SEED={a.seed} runs={count} workers={a.workers}", flush=True)

    workers = []
    n_workers = min(a.workers, count)
    for w in range(n_workers):
        workers.append(start(a.prop, 'run', a.seed, tier, w, n_workers, count, deadline))
    # determinism self-check: a few runs are executed a second time, in another process and in another order
    det_n = min(count, 8 if tier == 'quick' else 64)
    det_stride = max(1, count // det_n)
    det = start(a.prop, 'rerun', a.seed, tier, det_stride - 1, det_stride, count, deadline)

    runs, det_runs, errors, viols, mins, samples = {}, {}, [], [], [], []
    deadline_hit = False
    sel = selectors.DefaultSelector()
    bufs = {}
    for p in workers + [det]:
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, p)
        bufs[p] = b''
    ended = set()
    hard = t0 + deadline + 400
    stop_at = None
    while sel.get_map():
        if time.time() > hard or (stop_at and time.time() > stop_at):
            break
        for key, _ in sel.select(timeout=1.0):
            p = key.data
            chunk = p.stdout.read(1 << 20)
            if chunk == b'' or chunk is None and p.poll() is not None:
                sel.unregister(p.stdout)
                continue
            bufs[p] += chunk or b''
            *lines, bufs[p] = bufs[p].split(b'\n')
            for line in lines:
                m = json.loads(line)
                if m['t'] == 'run':
                    (det_runs if p is det else runs)[m['i']] = m
                    if 'sample' in m and len(samples) < 3 and p is not det:
                        samples.append({'run': m['i'], 'events': m['sample'][:25]})
                elif m['t'] == 'viol':
                    viols.append(m)
                    if p is det:
                        continue
                    if stop_at is None:
                        stop_at = time.time() + (0 if a.first else 75)   # time for minimisation
                elif m['t'] == 'min':
                    mins.append(m)
                    stop_at = time.time()            # good enough: report this one
                elif m['t'] == 'error':
                    errors.append(m['tb'])
                elif m['t'] == 'deadline':
                    deadline_hit = True
                elif m['t'] == 'end':
                    ended.add(p)
    for p in workers + [det]:
        if p.poll() is None:
            p.kill()
        p.wait()
    missing = [p for p in workers if p not in ended]

    wall = time.time() - t0
    mismatches = [i for i, m in det_runs.items() if i in runs and runs[i]['dig'] != m['dig']]
    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(runs):
                f.write(f"{i} {runs[i]['dig']} {runs[i]['il']}\n")

    # -- verdict -------------------------------------------------------------------------------- #
    verdict, code = 'held', 0
    known_lines = []
    if viols and a.first and viols[0]['kind'] != 'hang':
        print(f"[dsim] first: {viols[0]['kind']}: {viols[0]['msg'][:200]}")
        verdict, code = 'violated', 1
    elif viols:
        verdict, code = decide_violation(a, tier, viols, mins, known_lines)
    elif errors or missing:
        verdict, code = 'error', 2
        for tb in errors[:2]:
            print(tb, file=sys.stderr)
        print(f"[dsim] harness error: {len(errors)} errors, {len(missing)} workers ended early", file=sys.stderr)
    if mismatches:
        print(f"[dsim] WARNING: {len(mismatches)} of {len(det_runs)} re-executed runs were not identical: {mismatches[:5]}", file=sys.stderr)

    if not a.no_evidence:
        write_evidence(a, tier, meta, runs, det_runs, mismatches, wall, viols if code == 1 else [], samples, deadline_hit)
    for line in known_lines:
        print(line)
    print(f"[dsim] {verdict}: {len(runs)} runs in {wall:.1f} s; determinism re-checks: {len(det_runs)}, mismatches: {len(mismatches)}")
    sys.exit(code)


def decide_violation(a, tier, viols, mins, known_lines):
    candidates = [(m, True) for m in mins] + [(m, False) for m in sorted(viols, key=lambda m: m['i'])]
    out_dir = os.path.join(VERIF, 'replays')
    os.makedirs(out_dir, exist_ok=True)
    for m, minimised in candidates:
        path = os.path.join(out_dir, f"{a.prop}-seed{a.seed}-run{m['i']}-{'min' if minimised else 'full'}.json")
        rep = dict(property=a.prop, seed=a.seed, tier=tier, index=m['i'], kind=m['kind'], message=m['msg'], minimised=minimised,
                   choices=m['choices'], trace=m['events'], digest=m.get('dig'),
                   how_to_replay=f"bash /verif/replay.sh {path}")
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        r = replay_once(a.prop, path)
        if r is not None and r['kind'] is not None and r['kind'] != m['kind']:
            # e.g. state that an earlier run left behind decided which check failed first: what the replay file shows counts
            rep.update(kind=r['kind'], message=r['msg'], trace=r['events'], digest=r['dig'])
            m = dict(m, kind=r['kind'], events=r['events'])
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1)
        if r is not None and r['kind'] == m['kind']:
            for prop, kind, match, text in known_findings():
                if prop == a.prop and kind == m['kind'] and re.search(match, r['msg']):
                    known_lines.append(f"KNOWN-FINDING: property={prop} {text}")
                    return 'held (known finding)', 0
            print(f"[dsim] {m['kind']}: {r['msg'][:1500]}")
            print(f"[dsim] trace ({'minimised, ' if minimised else ''}{len(m['choices'])} choices):")
            for e in m['events'][-40:]:
                print(f"    {e[:200]}")
            print(f"VIOLATION property={a.prop} replay={path}", flush=True)
            return 'violated', 1
        print(f"[dsim] candidate of run {m['i']} did not reproduce in a fresh process "
              f"(expected {m['kind']}, got {r and r['kind']})", file=sys.stderr)
        os.remove(path)
    solid = [m for m in sorted(viols, key=lambda m: m['i']) if m['kind'] != 'hang']
    if not solid:
        # a run that was slow once but not when repeated: an overloaded machine, not a verdict on the code
        print("[dsim] WARNING: a run exceeded the wall-clock limit once and finished when repeated", file=sys.stderr)
        return 'held (one slow run repeated)', 0
    m = solid[0]
    path = os.path.join(out_dir, f"{a.prop}-seed{a.seed}-run{m['i']}-history.json")
    with open(path, 'w') as f:
        json.dump(dict(property=a.prop, seed=a.seed, tier=tier, index=m['i'], kind=m['kind'], message=m['msg'], minimised=False, choices=m['choices'],
                       trace=m['events'], note="the violation depends on state that earlier runs left behind in the same process; the history is the evidence",
                       preceding_runs=f"bash /verif/check.sh {a.prop} with VERIF_SEED={a.seed} VERIF_TIER={tier}"), f, indent=1)
    print(f"[dsim] {m['kind']}: {m['msg'][:1500]}")
    print(f"VIOLATION property={a.prop} replay={path}", flush=True)
    return 'violated', 1


def write_evidence(a, tier, meta, runs, det_runs, mismatches, wall, viols, samples, deadline_hit):
    faults, probes, states = {}, {}, set()
    for m in runs.values():
        for k, v in m['f'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in m['p'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(m['st'])
    nontrivial = {m['il'] for m in runs.values() if m['nt']}
    sim_s = sum(m['s'] for m in runs.values())
    ev = dict(
        property=a.prop, tier=tier, seed=a.seed, level='exploration', wall_s=round(wall, 2), violations=len(viols),
        coverage=dict(
            evaluations=len(runs),
            distinct_nontrivial=len(nontrivial),
            rule=meta['rule'],
            samples=samples or [{'violating_run': v['i'], 'events': v['events'][-25:]} for v in viols[:2]] or [{'note': 'no runs'}],
            simulated_runs=len(runs),
            seeds_per_hour=round(len(runs) / wall * 3600) if wall else 0,
            simulated_seconds=round(sim_s, 3),
            oracle_evaluations=sum(m['ev'] for m in runs.values()),
            distinct_interleavings=len({m['il'] for m in runs.values()}),
            interleaving_measure=meta.get('measure', "hash of the sequence of (actor, operation) scheduling decisions of a run"),
            distinct_states=len(states),
            scheduling_decisions=sum(m['sl'] for m in runs.values()),
            recorded_events=sum(m['ne'] for m in runs.values()),
            choices_drawn=sum(m['nc'] for m in runs.values()),
            faults_injected=faults,
            rare_condition_probes=probes,
            determinism=dict(reexecuted_runs=len(det_runs), mismatches=len(mismatches)),
            stopped_by_wall_clock=deadline_hit,
            components_real=meta['real'],
            components_stubbed=meta['stub'],
        ),
        assumptions=meta.get('assumptions', []),
    )
    path = os.path.join(VERIF, 'evidence', f'{a.prop}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()

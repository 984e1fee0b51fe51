#!/usr/bin/env python3
"""
Systematic mutation of one file of /repo, judged by the checks of some properties:
    automut.py FILE[:func,func] 'C07 C08' [--jobs 2] [--runs 0.5] [--limit N] [--tests]
Every mutant runs in a private mount namespace on a scratch copy of /repo.  Survivors are listed in /tmp/automut-<file>.txt
"""
import argparse, ast, copy, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dsim.meta import PROPS  # noqa

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(src, funcs):
    """ yields (line, description, new source) """
    tree = ast.parse(src)
    nodes = []

    def visit(node, inside):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                visit(child, inside or not funcs or child.name in funcs)
            else:
                if inside or not funcs:
                    nodes.append((node, child))
                visit(child, inside)
    visit(tree, False)
    lines = src.splitlines(True)

    def replace(node, text):
        s = copy.copy(lines)
        l0, c0, l1, c1 = node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset
        enc = lambda l: s[l].encode()
        head, tail = enc(l0)[:c0].decode(), enc(l1)[c1:].decode()
        s[l0:l1 + 1] = [head + text + tail]
        return ''.join(s)

    seen = set()
    for parent, n in nodes:
        if not hasattr(n, 'lineno'):
            continue
        out = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.deepcopy(n)
            t = CMP.get(type(n.ops[0]))
            if t:
                m.ops = [t()]
                out.append(('cmp', m))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            out.append(('bin', m))
            out.append(('left', n.left))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append(('bool', m))
            for v in n.values:
                out.append(('bool-only', v))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            out.append(('unary', n.operand))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append(('const', ast.Constant(n.value + 1)))
            if n.value not in (0, 1):
                out.append(('const', ast.Constant(0)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(('const', ast.Constant(not n.value)))
        elif isinstance(n, (ast.If, ast.While)):
            out.append(('cond-true', 'test', ast.Constant(True)) if isinstance(n, ast.If) else None)
            out.append(('cond-false', 'test', ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            out.append(('ifexp', n.body))
            out.append(('ifexp', n.orelse))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append(('delete', ast.Pass()))
            if isinstance(n, ast.AugAssign):
                m = ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno)
                out.append(('aug->assign', m))
        elif isinstance(n, ast.Raise):
            out.append(('delete', ast.Pass()))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append(('return-none', ast.Return(None)))
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and ast.unparse(n.func) not in ('super', 'isinstance', 'type', 'range', 'len', 'enumerate', 'iter', 'next'):
            out.append(('unwrap', n.args[0]))
        for o in out:
            if o is None:
                continue
            try:
                if len(o) == 3:
                    target, new = getattr(n, o[1]), o[2]
                else:
                    target, new = n, o[1]
                text = ast.unparse(new)
                if not isinstance(new, (ast.Pass, ast.Return, ast.Assign, ast.Constant, ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                    text = '(' + text + ')'
                s = replace(target, text)
                ast.parse(s)
            except Exception:
                continue
            if s == src or s in seen:
                continue
            seen.add(s)
            old = ast.get_source_segment(src, target) or ''
            yield n.lineno, f"{o[0]}: {' '.join(old.split())[:70]}  ->  {' '.join(text.split())[:70]}", s


def trial(path, src, props, frac, workers):
    W = tempfile.mkdtemp(prefix='automut-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
        open(f'{W}/repo/{path}', 'w').write(src)
        res = []
        for p in props:
            runs = max(20, int(PROPS[p]['runs']['quick'] * frac))
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {W}/repo /repo && cd /verif && . /opt/vp/env.sh && exec timeout 400 python -m dsim.runner {p} --tier quick --seed 1 --runs {runs} --workers {workers} --no-evidence --first'],
                               capture_output=True, text=True)
            msg = [x for x in r.stdout.splitlines() if 'first:' in x]
            res.append((p, r.returncode, msg[0][14:150] if msg else r.stderr[-150:] if r.returncode not in (0, 1) else ''))
            if r.returncode != 0:
                break
        return res
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('props')
    ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--runs', type=float, default=0.5); ap.add_argument('--limit', type=int)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    path, _, funcs = a.file.partition(':')
    funcs = set(filter(None, funcs.split(',')))
    src = open('/repo/' + path).read()
    ms = [m for m in mutants(src, funcs)]
    if a.limit and len(ms) > a.limit:
        step = len(ms) / a.limit
        ms = [ms[int(i * step)] for i in range(a.limit)]
    print(f"{path}: {len(ms)} mutants", flush=True)
    if a.list:
        for l, what, _ in ms:
            print(l, what)
        return
    out = open('/tmp/automut-' + re.sub(r'\W', '_', path) + '.txt', 'a')
    killed = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        futs = [(l, what, ex.submit(trial, path, s, a.props.split(), a.runs, max(1, 8 // a.jobs))) for l, what, s in ms]
        for l, what, f in futs:
            res = f.result()
            ok = res[-1][1] == 1
            killed += ok
            if not ok:
                line = f"SURVIVED {path}:{l} {what}   {res if res[-1][1] not in (0, 1) else ''}"
                print(line, flush=True)
                out.write(line + '\n'); out.flush()
    print(f"{path}: killed {killed} of {len(ms)}", flush=True)


main()

"""compare a run executed in a fresh process with the same run executed after others: cmp_runs.py PROP INDEX [PRE...]"""
import sys, os
sys.path.insert(0, '/verif')
from dsim import worker
from dsim.core import D
prop, i, *pre = sys.argv[1:]
mod = worker.load(prop)
def go(i):
    d = D(seed=f"1/{prop}/{i}", tier='quick', index=int(i)); worker.execute(mod, d); return d
a = go(i)
for p in pre: go(p)
b = go(i)
for n, (x, y) in enumerate(zip(a.events, b.events)):
    if x != y:
        print(n, x, '|', y, file=sys.stderr); 
        for k in range(max(0,n-8), n): print('   ', a.events[k], file=sys.stderr)
        break
print(a.digest(), b.digest(), len(a.events), len(b.events), file=sys.stderr)

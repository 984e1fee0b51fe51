""" A small linearizability checker (Wing & Gong search with memoisation). """


class TooHard(Exception):
    pass


def linearizable(ops, init, step, budget=200_000):
    """
    ops: list of dicts with 'inv', 'ret' (None/inf if it never returned) and 'ok' (False: failed or unknown outcome, may or may not have taken effect).
    step(state, op) -> list of possible next states if op could have produced its recorded result in ``state`` (states hashable).
    Returns True/False.
    """
    n = len(ops)
    inf = float('inf')
    ret = [o['ret'] if (o['ok'] and o['ret'] is not None) else inf for o in ops]
    required = frozenset(i for i in range(n) if ops[i]['ok'])
    order = sorted(range(n), key=lambda i: ops[i]['inv'])
    seen = set()
    stack = [(frozenset(), init)]
    work = 0
    while stack:
        done, state = stack.pop()
        if required <= done:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        work += 1
        if work > budget:
            raise TooHard()
        # an operation can come next if no other pending operation returned before it was invoked
        horizon = min(ret[i] for i in range(n) if i not in done)
        for i in order:
            if i in done:
                continue
            if ops[i]['inv'] > horizon:
                break
            for nxt in step(state, ops[i]):
                stack.append((done | {i}, nxt))
    return False

""" Minimisation of choice lists: delete spans, truncate, zero out blocks, lower single values; keeps the violation class. """
from . import simtime


def minimise(attempt, choices, spans, kind, budget_s):
    t_end = simtime.real['monotonic']() + budget_s
    tries = 0
    best = list(choices)
    best_spans = list(spans)

    def strip(c):
        n = len(c)
        while n and c[n - 1] == 0:
            n -= 1
        return c[:n]

    seen = set()

    def ok(cand):
        nonlocal tries, best, best_spans
        cand = strip(cand)
        key = tuple(cand)
        if key in seen or simtime.real['monotonic']() > t_end:
            return False
        seen.add(key)
        tries += 1
        v, d = attempt(cand)
        if v is not None and v.kind == kind:
            new = strip(d.choices)
            if (len(new), new) < (len(best), best):
                best, best_spans = new, list(d.spans)
                return True
        return False

    # binary search for a short prefix
    lo, hi = 0, len(best)
    while lo < hi and simtime.real['monotonic']() < t_end:
        mid = (lo + hi) // 2
        if ok(best[:mid]):
            hi = min(mid, len(best))
        else:
            lo = mid + 1
        hi = min(hi, len(best))

    progress = True
    while progress and simtime.real['monotonic']() < t_end:
        progress = False
        # delete spans, largest first, from the back
        for start, stop in sorted(set(best_spans), key=lambda s: (s[0] - s[1], -s[0])):
            if stop <= len(best) + 1 and start < stop and ok(best[:start] + best[stop:]):
                progress = True
                break
        if progress:
            continue
        # delete blocks
        for size in (64, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if ok(best[:i] + best[i + size:]):
                    progress = True
                i -= size
                if i + size > len(best):
                    i = len(best) - size
        # zero blocks
        for size in (32, 8, 2, 1):
            i = 0
            while i < len(best):
                block = best[i:i + size]
                if any(block) and ok(best[:i] + [0] * len(block) + best[i + size:]):
                    progress = True
                i += size
        # lower values
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            for w in {v // 2, v - 1}:
                if 0 <= w < v and i < len(best) and ok(best[:i] + [w] + best[i + 1:]):
                    progress = True
                    break
    return best, tries

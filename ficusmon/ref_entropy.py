"""Reference definitions of the entropies (written from the formulas, not from the code)."""
import math
from collections import Counter


def drop(names, removed):
    return [t for t in ([n for n in t if n not in removed] for t in names) if t]


def dfg_entropies(names, laplace):
    count = Counter(n for t in names for n in t)
    follows, precedes = Counter(), Counter()
    for t in names:
        for i, n in enumerate(t):
            follows[n, t[i + 1] if i + 1 < len(t) else None] += 1
            precedes[n, t[i - 1] if i > 0 else None] += 1
    out = {}
    targets = list(count) + [None]
    for n, c in count.items():
        h = 0.0
        for rel in (follows, precedes):
            for m in targets:
                k = rel[n, m]
                if laplace:
                    a = 1 / c
                    p = (k + a) / (c + a * (len(count) + 1))
                else:
                    p = k / c
                if p > 0:
                    h -= p * math.log2(p)
        out[n] = h
    return out


def pos_entropies(names):
    """None when undefined (a single non-empty trace)."""
    names = [t for t in names if t]
    n = len(names)
    if n == 1:
        return None
    out = {}
    for e in {x for t in names for x in t}:
        at = Counter(i for t in names for i, x in enumerate(t) if x == e)
        vals = [-math.log(c / n) / math.log(n) for c in at.values()]
        out[e] = sum(vals) / len(vals)
    return out


def close(a, b, eps=1e-9):
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b))

"""Reference definitions for patterns, over plain sequences of classes (strings)."""


def tandem_arrays(trace, max_len):
    """(first_pos, length, count) of every block (2..max_len-1 events) whose first occurrence starts a repetition."""
    out, n = set(), len(trace)
    for L in range(2, max_len):
        seen = set()
        for i in range(0, n - L + 1):
            b = tuple(trace[i:i + L])
            if b in seen:
                continue
            seen.add(b)
            c = repetitions(trace, i, L)
            if c > 1:
                out.add((i, L, c))
    return out


def repetitions(trace, i, L):
    b = trace[i:i + L]
    c = 1
    while i + (c + 1) * L <= len(trace) and trace[i + c * L:i + (c + 1) * L] == b:
        c += 1
    return c


def primitive_arrays(trace, max_len):
    return {(i, L, c) for i, L, c in tandem_arrays(trace, max_len)
            if not any(repetitions(trace, i, k) > 1 for k in range(2, (L + 1) // 2 + 1))}


def maximal_repeats(trace):
    """content -> sorted positions, for every repeat that can be extended neither to the left nor to the right."""
    out, n = {}, len(trace)
    live = list(range(n))
    for L in range(1, n):
        pos = {}
        for i in live:
            if i + L <= n:
                pos.setdefault(tuple(trace[i:i + L]), []).append(i)
        live = []
        for c, ps in pos.items():
            if len(ps) < 2:
                continue
            live.extend(ps)
            left = {trace[p - 1] if p > 0 else ('start',) for p in ps}
            right = {trace[p + L] if p + L < n else ('end',) for p in ps}
            if len(left) > 1 and len(right) > 1:
                out[c] = sorted(ps)
        live.sort()
        if not live:
            break
    return out


def occurrences(needle, hay):
    L = len(needle)
    return [i for i in range(len(hay) - L + 1) if tuple(hay[i:i + L]) == needle]


def super_maximal(reps):
    return {c for c in reps if sum(len(occurrences(c, d)) for d in reps) == 1}


def near_super_maximal(reps):
    iv = [(p, p + len(c), c) for c, ps in reps.items() for p in ps]
    out = set()
    for b, e, c in iv:
        if not any(b2 <= b and e <= e2 and (b2, e2) != (b, e) for b2, e2, _ in iv):
            out.add(c)
    return out


def greedy_instances(trace, roots, classes_of, children, narrow=True, keep=lambda node, s, l: True):
    """The left to right scan. roots: activity nodes; classes_of(node) -> set; children(node) -> nodes.
    Yields (set of acceptable nodes, start, length)."""
    order = sorted(roots, key=lambda r: (len(classes_of(r)), r.name))
    out = []
    cur, start, seen = None, 0, set()
    i = 0

    def close(end):
        ok = {cur}
        if narrow:
            below, q = [], list(children(cur))
            while q:
                x = q.pop()
                if seen <= classes_of(x):
                    below.append(x)
                    q.extend(children(x))
            if below:
                m = min(len(classes_of(x)) for x in below)
                ok = {x for x in below if len(classes_of(x)) == m}
        out.append((ok, start, end - start))

    while i < len(trace):
        c = trace[i]
        if cur is None:
            cur = next((r for r in order if c in classes_of(r)), None)
            if cur is not None:
                start, seen = i, {c}
            i += 1
            continue
        if c in classes_of(cur):
            seen.add(c)
            i += 1
            continue
        nxt = next((r for r in order if len(classes_of(r)) >= len(classes_of(cur)) and seen | {c} <= classes_of(r)), None)
        if nxt is not None:
            cur = nxt
            seen.add(c)
            i += 1
            continue
        close(i)
        cur = None
    if cur is not None:
        close(len(trace))
    return out

"""P37: the backend's patterns are exactly the repeated parts of the traces (Rust)."""
from collections import Counter

from .. import rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401

ID = 'P37'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 120000}
RULE = ('random, periodic, Fibonacci and mutated-copy traces over 1..5 classes (hashes up to 2^64-1), per trace and merged; repeats, tandem '
        'arrays, occurrences, repeat sets and activity trees of the real Rust code are compared with brute force; non-trivial: at least one pattern')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (none of them is used by the pattern code)',
               'merged logs whose traces end alike are only judged for soundness']
REQUIRED_EVENTS = ['repeat', 'repeat:super', 'repeat:near', 'merged repeat', 'merged shared end', 'tandem', 'primitive', 'not primitive',
                   'occurrences', 'no occurrence', 'merged occurrences', 'repeat set', 'tree', 'child', 'second parent', 'empty trace',
                   'unit occurs earlier']
KINDS = ('max', 'super', 'near')


def occurrences(t, w):
    n = len(w)
    return [i for i in range(len(t) - n + 1) if t[i:i + n] == w]


def brute(t):
    """Repeats of a word by definition. None in `t` separates traces, every one different.
    Returns kind -> (must be reported, may be reported)."""
    n = len(t)
    first = {}
    for i in range(n):
        for j in range(i + 1, n + 1):
            if t[j - 1] is None:
                break
            first.setdefault(tuple(t[i:j]), []).append(i)
    maximal, must, near, near_must = {}, set(), set(), set()
    for w, at in first.items():
        if len(at) < 2:
            continue
        by_right = {}
        for i in at:
            left = t[i - 1] if i and t[i - 1] is not None else ('start', i)
            end = i + len(w)
            right = t[end] if end < n and t[end] is not None else ('end', i)
            by_right.setdefault(right, []).append(left)
        lefts = Counter(x for v in by_right.values() for x in v)
        if len(lefts) < 2 or len(by_right) < 2:
            continue
        maximal[w] = at
        sets = [set(v) for v in by_right.values()]
        if any(a != b for i, a in enumerate(sets) for b in sets[:i]):
            must.add(w)
        for v in by_right.values():
            if len(v) == 1 and lefts[v[0]] == 1:
                near.add(w)
                if not isinstance(v[0], tuple):
                    near_must.add(w)
    words = set(maximal)
    inner = set()
    for v in words:
        for i in range(len(v)):
            for j in range(i + 1, len(v) + 1):
                if (i, j) != (0, len(v)):
                    inner.add(v[i:j])
    supers = words - inner
    return {'max': (must | supers, words), 'super': (supers, supers), 'near': (near_must, near)}


def word(rng, al, n):
    s = rng.random()
    if s < 0.25:
        unit = [rng.choice(al) for _ in range(rng.randint(1, 5))]
        t = (unit * (n // len(unit) + 1))[:n]
    elif s < 0.4:
        a, b = [al[0]], [al[0], al[-1]]
        while len(b) < n:
            a, b = b, b + a
        t = b[:n]
    else:
        t = [rng.choice(al) for _ in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        if t:
            t[rng.randrange(len(t))] = rng.choice(al)
    return t


def make_log(rng, big):
    al = [rng.choice([k, rng.getrandbits(64)]) for k in range(rng.randint(1, 5))]
    log = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        if log and rng.random() < 0.4:
            t = list(rng.choice(log))
            if t and rng.random() < 0.7:
                t[rng.randrange(len(t))] = rng.choice(al)
            t = t[rng.choice([0, 0, 1]):]
        else:
            t = word(rng, al, rng.choice([0, 1, 2, 3, rng.randint(3, 14), rng.randint(3, 14), rng.randint(10, 40 if big else 20)]))
        log.append(t)
    if rng.random() < 0.5:     # traces that end differently
        for i, t in enumerate(log):
            if i:
                t.append(1000 + i)
    return log


def judge(mon, kind, got, bounds, log, strategy):
    must, may = bounds
    mon.equal(len(set(got)), len(got), f'{kind} repeats ({strategy}): the same repeat is reported twice', log=log)
    extra = set(got) - may
    mon.check(not extra, f'{kind} repeats ({strategy}): something is reported that is none', log=log, reported=extra)
    missing = must - set(got)
    mon.check(not missing, f'{kind} repeats ({strategy}): one is missing', log=log, missing=missing, found=got)


def contents(log, found):
    return [tuple(t[s:s + n]) for t, row in zip(log, found) for s, n in row]


def repeats(mon, H, log, rng):
    for t in log:
        if not t:
            mon.event('empty trace')
    per = {k: H.ask('repeats', log=log, strategy='FromAllTraces', kind=k) for k in KINDS}
    for i, t in enumerate(log):
        bounds = brute(t)
        for k in KINDS:
            mon.equal(len(per[k]), len(log), 'one list of repeats per trace', log=log)
            for s, n in per[k][i]:
                mon.check(n > 0 and s + n <= len(t), f'{k}: the repeat lies in its trace', trace=t, repeat=(s, n))
            got = [tuple(t[s:s + n]) for s, n in per[k][i]]
            judge(mon, k, got, bounds[k], t, 'one trace')
            mon.event('repeat' if k == 'max' else 'repeat:' + k, len(got))
            if got:
                mon.distinct(k, got)
    merged = []
    for t in log:
        merged += t + [None]
    bounds = brute(merged)
    ends = [t[-1] for t in log if t]
    shared = len(set(ends)) < len(ends)
    all_found = {}
    for k in KINDS:
        found = H.ask('repeats', log=log, strategy='FromSingleMergedTrace', kind=k)
        mon.equal(len(found), len(log), 'one list of repeats per trace (merged)', log=log)
        for t, row in zip(log, found):
            for s, n in row:
                mon.check(n > 0 and s + n <= len(t), f'{k} (merged): the repeat lies in its trace', log=log, repeat=(s, n))
        got = contents(log, found)
        all_found[k] = set(got)
        if not shared:
            judge(mon, k, got, bounds[k], log, 'merged')
            mon.event('merged repeat', len(got))
        else:
            # equal trace ends share the separator: only soundness is required
            mon.event('merged shared end')
            judge(mon, k, got, (set(), bounds['max'][1]), log, 'merged')
            if k == 'max':
                tails = [tuple(t[i:]) for t in log for i in range(len(t))]
                twice = {w for w, c in Counter(tails).items() if c > 1}
                judge(mon, k, got, ({w for w in bounds['max'][0] if w not in twice}
                                    if not any(w[-1:] == x[-1:] for w in bounds['max'][0] for x in twice) else set(),
                                    bounds['max'][1]), log, 'merged')
    mon.check(all_found['super'] <= all_found['max'] and all_found['near'] <= all_found['max'],
              'super and near-super maximal repeats are maximal repeats', log=log, sets=all_found)


def times(t, i, n):
    c = 1
    while len(t) >= i + (c + 1) * n and t[i + c * n:i + (c + 1) * n] == t[i:i + n]:
        c += 1
    return c


def tandem(mon, H, log, rng):
    top = rng.choice([0, 1, 2, 3, 4, 6, 10, 30, rng.choice([30, 256, 65536])])
    got = H.ask('tandem', log=log, len=top, kind='max')
    prim = H.ask('tandem', log=log, len=top, kind='prim')
    mon.equal((len(got['full']), len(prim['full'])), (len(log), len(log)), 'tandem arrays: one list per trace')
    for i, t in enumerate(log):
        units = {}
        for n in range(2, min(top, len(t))):
            for s in range(len(t) - 2 * n + 1):
                u = tuple(t[s:s + n])
                if u not in units and times(t, s, n) > 1:
                    units[u] = [s, n, times(t, s, n)]
                    if occurrences(t, list(u))[0] != s:
                        mon.event('unit occurs earlier')
        mon.equal(sorted(got['full'][i]), sorted(units.values()), 'maximal tandem arrays: every repeated unit once, at its first repetition, '
                  'with the number of its repetitions', trace=t, limit=top)
        mon.equal(got['plain'][i], [x[:2] for x in got['full'][i]], 'tandem arrays with and without counts agree', trace=t)
        mon.equal(prim['plain'][i], [x[:2] for x in prim['full'][i]], 'primitive arrays with and without counts agree', trace=t)
        mon.event('tandem', len(units))
        shown = [tuple(x) for x in prim['full'][i]]
        mon.equal(len(set(shown)), len(shown), 'a primitive array is reported once', trace=t)
        for x in shown:
            mon.check(list(x) in got['full'][i], 'a primitive array is a tandem array', trace=t, array=x)
        for s, n, c in units.values():
            u = t[s:s + n]
            power = any(n % d == 0 and u == u[:d] * (n // d) for d in range(2, n))
            plain = not any(times(t, s, d) > 1 for d in range(2, n))
            if power:
                mon.event('not primitive')
                mon.check((s, n, c) not in shown, 'an array of arrays is reported as primitive', trace=t, array=(s, n, c), limit=top)
            elif plain:
                mon.event('primitive')
                mon.check((s, n, c) in shown, 'a primitive tandem array is missing', trace=t, array=(s, n, c), limit=top)
        if units:
            mon.distinct('tandem', sorted(units))


def find(mon, H, log, rng):
    t = rng.choice(log)
    classes = sorted({e for x in log for e in x}) + [7777]

    def pick(x):
        if x and rng.random() < 0.7:
            s = rng.randrange(len(x))
            p = x[s:s + rng.randint(1, 6)]
            if rng.random() < 0.2:
                p = p + [rng.choice(classes)]
            return p
        return [rng.choice(classes) for _ in range(rng.randint(1, 3))]

    ps = [pick(t) for _ in range(4)]
    got = H.ask('find', log=[t], patterns=ps, single=True)
    for p, g in zip(ps, got):
        exp = [[i, i + len(p)] for i in occurrences(t, p)]
        mon.equal(g or [], exp, 'the places where a pattern occurs', trace=t, pattern=p)
        mon.event('occurrences' if exp else 'no occurrence')
    ends = [x[-1] for x in log if x]
    if len(set(ends)) == len(ends) and all(log):
        merged = []
        for x in log:
            merged += x + [None]
        ps = [pick(rng.choice(log)) for _ in range(4)]
        got = H.ask('find', log=log, patterns=ps, single=False)
        for p, g in zip(ps, got):
            exp = [[i, i + len(p)] for i in occurrences(merged, p)]
            mon.equal(g or [], exp, 'the places where a pattern occurs in several traces', log=log, pattern=p)
            mon.event('merged occurrences')


def sets(mon, H, log, rng):
    patterns = []
    for t in log:
        row = []
        for _ in range(rng.randint(0, 6)):
            if t:
                s = rng.randrange(len(t))
                row.append([s, rng.randint(1, min(6, len(t) - s))])
        patterns.append(row)
    got = H.ask('repeat_sets', log=log, patterns=patterns)
    exp = {}
    for i, (t, row) in enumerate(zip(log, patterns)):
        for s, n in row:
            exp.setdefault(frozenset(t[s:s + n]), [s, n, i])
    mon.equal(got, sorted(exp.values(), key=lambda x: (x[2], x[0], x[1])),
              'repeat sets: every set of classes once, represented by its first pattern, in the order of the log', log=log, patterns=patterns)
    mon.event('repeat set', len(got))
    level = rng.randrange(4)
    tree = H.ask('tree', log=log, repeats=got, level=level)
    judge_tree(mon, tree['tops'], tree['nodes'], {tuple(r): set(log[r[2]][r[0]:r[0] + r[1]]) for r in got}, level, log)


def judge_tree(mon, tops, nodes, expected, level, log):
    mon.event('tree')
    seen = [tuple(n['repeat']) for n in nodes]
    mon.equal(sorted(seen), sorted(expected), 'activity tree: every repeat set is one activity', log=log)
    parents = Counter()
    for n in nodes:
        mon.equal(set(n['classes']), expected[tuple(n['repeat'])], 'activity tree: classes of an activity', log=log)
        mon.equal((n['level'], n['len']), (level, len(n['classes'])), 'activity tree: level and size', log=log)
        mon.equal(len(set(n['children'])), len(n['children']), 'activity tree: a child is listed once', log=log)
        for c in n['children']:
            parents[c] += 1
            mon.event('child')
            mon.check(set(nodes[c]['classes']) < set(n['classes']), 'activity tree: a child is part of its parent', log=log, parent=n, child=nodes[c])
    mon.equal(len(set(tops)), len(tops), 'activity tree: a top activity is listed once', log=log)
    for i, n in enumerate(nodes):
        inside = any(set(n['classes']) < set(m['classes']) for m in nodes)
        mon.equal(i in tops, not inside, 'activity tree: an activity is on top exactly if no larger one contains it', log=log, node=n, nodes=nodes)
        if parents[i] > 1:
            mon.event('second parent')
    if len(nodes) > 1:
        mon.distinct('tree', sorted(sorted(n['classes']) for n in nodes))


def known(mon, H):
    """Inputs of the recorded findings; any other violation is reported by the other monitors."""
    found = H.ask('repeats', log=[[5], [5]], strategy='FromSingleMergedTrace', kind='max')
    mon.check((5,) in contents([[5], [5]], found), 'a repeat at the end of two traces is not reported for merged traces',
              mechanism='merged-equal-ends', found=found)
    t = [1, 0, 0, 0, 1, 2, 1, 1, 0, 1]
    found = H.ask('repeats', log=[t], strategy='FromAllTraces', kind='max')
    mon.check((0,) in contents([t], found), 'a maximal repeat whose continuations all have the same left neighbours is not reported',
              mechanism='equal-left-contexts', found=found)


def run_case(rng, index, mon):
    H = rust.H
    if index == 0:
        known(mon, H)
    log = make_log(rng, mon.tier == 'thorough')
    step = index % 4
    if step == 0:
        repeats(mon, H, log, rng)
    elif step == 1:
        for _ in range(2):
            tandem(mon, H, log, rng)
        long = [word(rng, [1, 2, 3], rng.randint(20, 60))]
        tandem(mon, H, long, rng)
    elif step == 2:
        find(mon, H, log, rng)
        repeats(mon, H, log, rng)
    else:
        sets(mon, H, log, rng)
    mon.sample({'log': log})

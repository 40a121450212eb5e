"""P39: log information, entropies and changes of the log in the backend (Rust)."""
import math
import re
from collections import Counter

from .. import gen, rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401

ID = 'P39'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 120000}
RULE = ('random logs (empty traces, repeated and unicode names, ignored names) and random histories of filters, renames, artificial events, pushes, '
        'trace removals and copies on one log object, with its derived data asked for before, between and after the changes; the real Rust code is '
        'compared with a recount; non-trivial: at least two event classes')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (regular expressions: the regex crate)',
               'floating point values are compared with a relative tolerance of 1e-9']
REQUIRED_EVENTS = ['info', 'fake', 'ignored', 'directly follows', 'single follower', 'graph edge', 'entropy', 'entropy ignored', 'op:remove_name',
                   'op:remove_names', 'op:remove_regex', 'op:rename', 'op:artificial', 'op:push', 'op:remove_traces', 'op:clone', 'observed before',
                   'trace removed', 'variant group', 'class', 'class by expression', 'unobserved']
FAKE = ('FAKE_START', 'FAKE_END')


def close(a, b):
    if isinstance(a, str):
        a = {'NaN': math.nan, 'inf': math.inf, '-inf': -math.inf}.get(a, a)
        a = float(a)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def same(got, exp):
    return set(got) == set(exp) and all(close(got[k], exp[k]) for k in exp)


def pairs_of(log, fake, ignored):
    c = Counter()
    for t in log:
        t = [e for e in t if e not in ignored]
        if fake and t:
            t = [FAKE[0]] + t + [FAKE[1]]
        c.update(zip(t, t[1:]))
    return c


def entropy(ps):
    return -sum(p * math.log2(p) for p in ps if p)


def entropies(log, ignored):
    kept = [[e for e in t if e not in ignored] for t in log]
    n = Counter(e for t in kept for e in t)
    pair = pairs_of(log, True, ignored)
    out = {'default': {}, 'laplace': {}, 'pos': {}}
    for e in n:
        after = [pair[e, x] for x in list(n) + [FAKE[1]]]
        before = [pair[x, e] for x in list(n) + [FAKE[0]]]
        out['default'][e] = entropy([k / n[e] for k in after]) + entropy([k / n[e] for k in before])
        a = 1 / n[e]
        d = a * (len(n) + 1) + n[e]
        out['laplace'][e] = entropy([(a + k) / d for k in after]) + entropy([(a + k) / d for k in before])
        full = [t for t in kept if t]
        at = Counter(i for t in full for i, x in enumerate(t) if x == e)
        if len(full) == 1:
            out['pos'][e] = math.nan
        else:
            out['pos'][e] = sum(-math.log2(c / len(full)) / math.log2(len(full)) for c in at.values()) / len(at)
    out['fast'] = out['pos']
    return out


def judge_entropies(mon, got, log, ignored, history=None):
    exp = entropies(log, ignored)
    for k in exp:
        mon.check(same(got[k], exp[k]), f'{k} entropies of the event classes', log=log, ignored=ignored, values=got[k], reference=exp[k], history=history)


def make(rng):
    al = [a for a in dict.fromkeys(gen.alphabet(rng, k=rng.randint(1, 6))) if a not in FAKE] or ['a']
    log = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        if log and rng.random() < 0.3:
            log.append(list(rng.choice(log)))
        else:
            log.append([rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))])
    return al, log


def info(mon, H, rng):
    al, log = make(rng)
    ignored = rng.choice([None, None, [], rng.sample(al, rng.randint(1, len(al)))])
    fake = rng.random() < 0.4
    ask = al + ['nothing', *FAKE]
    got = H.ask('info', log=log, ignored=ignored, fake=fake, ask=ask, dfg=not fake)
    ign = set(ignored or ())
    mon.event('info')
    mon.event('fake', fake)
    mon.event('ignored', bool(ign))
    n = Counter(e for t in log for e in t if e not in ign)
    pair = pairs_of(log, fake, ign)
    w = dict(log=log, ignored=ignored, fake=fake)
    mon.equal(got['traces'], len(log), 'number of traces', **w)
    if not ign:
        mon.equal(got['events'], sum(map(len, log)), 'number of events', **w)
    kept = [t for t in ([e for e in t if e not in ign] for t in log) if t]
    mon.equal(sorted(got['starts']), sorted({t[0] for t in kept}), 'start classes', **w)
    mon.equal(sorted(got['ends']), sorted({t[-1] for t in kept}), 'end classes', **w)
    mon.equal(got['count_events'], sum(map(len, log)), 'number of events of the log', **w)
    mon.equal(got['classes'], len(n), 'number of event classes', **w)
    mon.equal(sorted(got['all']), sorted(n), 'event classes', **w)
    mon.equal(sorted(got['pairs']), sorted([a, b, c, True] for (a, b), c in pair.items()), 'directly-follows relation with counts', **w)
    mon.event('directly follows', len(pair))
    for e in ask:
        p = got['per'][e]
        after = {b: c for (a, b), c in pair.items() if a == e}
        before = {a: c for (a, b), c in pair.items() if b == e}
        mon.equal((p['count'], p['after'] or {}, p['before'] or {}), (n[e], after, before), 'count, followers and predecessors of an event class', event=e, **w)
        mon.equal(p['single'], len(after) == 1, 'an event class with one follower', event=e, **w)
        mon.event('single follower', len(after) == 1)
    if not fake:
        g = got['graph']
        names = dict(g['nodes'])
        mon.equal(sorted(names.values()), sorted(n), 'nodes of the directly-follows graph', **w)
        mon.equal(len(names), len(g['nodes']), 'node ids differ', **w)
        mon.equal(sorted((names[a], names[b], d) for a, b, d in g['edges']), sorted((a, b, str(c)) for (a, b), c in pair.items()),
                  'edges of the directly-follows graph', **w)
        mon.event('graph edge', len(pair))
    if len(n) > 1:
        mon.distinct('info', sorted(n), sorted(pair))
    if any(log):
        judge_entropies(mon, H.ask('entropy', log=log, ignored=ignored), log, ign)
        mon.event('entropy')
        mon.event('entropy ignored', bool(ign))


def judge_state(mon, state, log, observe, history):
    mon.equal([t['names'] for t in state], log, 'the events of the traces after the changes', history=history)
    if not observe:
        return
    for t, s in zip(log, state):
        mon.equal(s['counts'], [dict(Counter(t)), len(t)], 'counts of a trace describe its events', trace=t, history=history)
        mon.equal(s['positions'], {e: [i for i, x in enumerate(t) if x == e] for e in t}, 'positions of the events of a trace', trace=t, history=history)


def change(mon, H, rng):
    al, log = make(rng)
    start = [list(t) for t in log]
    observe = rng.random() < 0.75
    mon.event('observed before' if observe else 'unobserved')
    ignored = rng.sample(al, 1) if rng.random() < 0.3 else None
    ops, states = [], []
    cur = [list(t) for t in log]
    for _ in range(rng.randint(1, 6)):
        names = sorted({e for t in cur for e in t}) or al
        k = rng.choice(['remove_name', 'remove_names', 'remove_regex', 'rename', 'artificial', 'push', 'remove_traces', 'clone'])
        if k == 'remove_name':
            x = rng.choice(names + ['nothing'])
            op = [k, x]
            cur = [[e for e in t if e != x] for t in cur]
        elif k == 'remove_names':
            x = rng.sample(names, rng.randint(0, min(2, len(names))))
            op = [k, x]
            cur = [[e for e in t if e not in x] for t in cur]
        elif k == 'remove_regex':
            x = rng.choice(names)
            pat = rng.choice(['^', '']) + re.escape(x[:1] or 'q') if re.escape(x[:1] or 'q').isascii() and (x[:1] or 'q').isalnum() else 'q+'
            op = [k, pat]
            cur = [[e for e in t if not re.search(pat, e)] for t in cur]
        elif k == 'rename':
            x = rng.sample(names, rng.randint(1, min(2, len(names))))
            y = rng.choice(names + ['new', 'Новый'])
            op = [k, x, y]
            cur = [[y if e in x else e for e in t] for t in cur]
        elif k == 'artificial':
            a, b = rng.random() < 0.6, rng.random() < 0.6
            op = [k, [a, b]]
            cur = [['ARTIFICIAL_START'] * a + t + ['ARTIFICIAL_END'] * b for t in cur]
        elif k == 'push':
            if not cur:
                continue
            i, x = rng.randrange(len(cur)), rng.choice(al)
            op = [k, x, i]
            cur = [t + [x] if j == i else t for j, t in enumerate(cur)]
        elif k == 'remove_traces':
            gone = [i for i in range(len(cur)) if rng.random() < 0.3]
            op = [k, gone]
            cur = [t for i, t in enumerate(cur) if i not in gone]
        else:
            op = [k, None]
        if k.startswith('remove_') and k != 'remove_traces':
            if not all(cur):
                mon.event('trace removed')
            cur = [t for t in cur if t]
        ops.append(op)
        mon.event('op:' + k)
        states.append([list(t) for t in cur])
    got = H.ask('mutate', log=log, observe=observe, ops=ops, ignored=ignored)
    judge_state(mon, got['first'], start, observe, [])
    for i, (s, exp) in enumerate(zip(got['steps'], states)):
        hist = {'log': log, 'ops': ops[:i + 1], 'observed': observe}
        judge_state(mon, s['state'], exp, observe, hist)
        mon.equal(s['raw'], exp, 'the raw log after the changes', history=hist)
        groups = {}
        for j, t in enumerate(exp):
            groups.setdefault(tuple(t), []).append(j)
        mon.equal(s['groups'], sorted(groups.values()), 'traces are grouped exactly by their events', history=hist)
        mon.equal(s['split'], [[exp[j] for j in g] for g in sorted(groups.values())], 'the log is split into its variants', history=hist)
        mon.event('variant group', sum(len(g) > 1 for g in groups.values()))
        if s['entropy'] is not None:
            judge_entropies(mon, s['entropy'], exp, set(ignored or ()), hist)
    mon.equal(got['copy'], start, 'a copy made before the changes is not affected', history=ops)
    mon.distinct('change', log, ops)
    mon.sample({'log': log, 'ops': ops})


def classes(mon, H, rng):
    al, log = make(rng)
    if rng.random() < 0.5:
        log = [[rng.choice(['ab', 'cd', '1x', 'é']) + rng.choice(['', '_1', '-2', ' z']) for _ in t] for t in log]
        got = H.ask('hashes', log=log, regex='[a-z]+')
        m = lambda n: (re.match('[a-z]+', n) or [n])[0]
        mon.equal(got['shown'], [[m(n) for n in t] for t in log], 'the class of a name is the part matched at its beginning, else the name', log=log)
        mon.event('class by expression')
    else:
        got = H.ask('hashes', log=log, regex=None)
        m = lambda n: n
        mon.event('class')
    by = {}
    mon.equal(len(got['hashes']), len(log), 'one list of hashes per trace')
    for t, h in zip(log, got['hashes']):
        mon.equal(len(t), len(h), 'one hash per event')
        for n, x in zip(t, h):
            by.setdefault(m(n), set()).add(x)
    mon.check(all(len(v) == 1 for v in by.values()) and len({x for v in by.values() for x in v}) == len(by),
              'two events have the same hash exactly if they are of the same class', log=log, hashes=by)


def run_case(rng, index, mon):
    H = rust.H
    if index % 5 < 2:
        info(mon, H, rng)
    elif index % 5 < 4:
        change(mon, H, rng)
    else:
        classes(mon, H, rng)

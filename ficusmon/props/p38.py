"""P38: activity instances and abstracted logs of the backend (Rust)."""
from collections import Counter

from .. import gen, rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401
from .p37 import judge_tree, make_log

ID = 'P38'
LEVEL = 'exploration'
CASES = {'quick': 5000, 'thorough': 100000}
RULE = ('random logs, pattern kinds, strategies, event classes, narrowing and filter kinds; discovered or hand-made activity trees; instances, '
        'the abstracted log and everything derived from it by the real Rust code are compared with the log; non-trivial: at least one instance')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (regular expressions: the regex crate)']
REQUIRED_EVENTS = ['instance', 'discovered tree', 'hand-made tree', 'narrowed', 'filtered', 'adjusted', 'event class', 'undefined:drop',
                   'undefined:single', 'undefined:all', 'other level', 'same name twice', 'nested', 'uncovered event', 'no instance']


def walk(nodes, start):
    seen, todo = set(), list(start)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += nodes[i]['children']
    return seen


def judge_instances(mon, req, processed, nodes, tops, rows, low, name):
    kind, filt = req['narrow'], req['filter']
    narrowing = kind in ('NarrowUp', 'NarrowDown')
    cls = [set(n['classes']) for n in nodes]
    mon.equal(len(rows), len(processed), f'{name}: one list per trace')
    for t, row in zip(processed, rows):
        at = 0
        for k, (node, s, n) in enumerate(row):
            mon.event('instance')
            mon.check(s >= at and n > 0 and s + n <= len(t), f'{name}: instances are ordered, disjoint and inside the trace', trace=t, instances=row, request=req)
            at = s + n
            here = set(t[s:s + n])
            mon.check(here <= cls[node], f'{name}: an instance contains only events of its activity', trace=t, instance=(s, n),
                      activity=nodes[node], request=req)
            if not narrowing:
                mon.check(node in tops, f'{name}: an instance belongs to a top activity', trace=t, instance=(node, s, n), tops=tops, request=req)
            else:
                mon.check(any(node in walk(nodes, [top]) for top in tops), f'{name}: an instance belongs to an activity of the tree', request=req)
                # narrowed as far as its events allow
                smaller = [c for c in nodes[node]['children'] if here <= cls[c] and len(cls[c]) < len(cls[node]) and kind == 'NarrowDown']
                mon.check(not smaller, f'{name}: an instance is narrowed to the smallest activity with all its events', trace=t,
                          instance=(s, n), activity=nodes[node], smaller=[nodes[c] for c in smaller], request=req)
                if node not in tops:
                    mon.event('narrowed')
            if filt == 'DefaultFilter':
                mon.event('filtered')
                mon.check(len(cls[node]) >= low and n > len(cls[node]) // 2, f'{name}: a kept instance is large enough', trace=t,
                          instance=(s, n), activity=nodes[node], minimum=low, request=req)
            elif not narrowing and s + n < len(t) and name == 'instances':
                nxt = t[s + n]
                grow = [i for i in tops if here | {nxt} <= cls[i] and len(cls[i]) >= len(cls[node])]
                mon.check(not grow, f'{name}: an instance extends as far as an activity allows', trace=t, instance=(s, n),
                          activity=nodes[node], other=[nodes[i] for i in grow], request=req)
        if filt == 'NoFilter' and name == 'instances':
            covered = {i for _, s, n in row for i in range(s, s + n)}
            for i, e in enumerate(t):
                mon.equal(i in covered, any(e in cls[x] for x in tops), f'{name}: without a filter exactly the events of the activities are covered',
                          trace=t, position=i, instances=row, request=req)


def make_activities(rng, names):
    out = []
    for _ in range(rng.randint(1, 5)):
        ks = rng.sample(names, rng.randint(1, min(4, len(names))))
        out.append({'name': rng.choice(['A', 'B', 'C', 'D', 'E']), 'classes': ks, 'children': [], 'top': True})
    for i, n in enumerate(list(out)):
        parent, at = n, i
        for _ in range(rng.choice([0, 1, 2, 3])):
            if len(parent['classes']) > 1:
                out.append({'name': rng.choice(['A', 'X', 'Y', 'Z']),
                            'classes': rng.sample(parent['classes'], rng.randint(1, len(parent['classes']) - 1)), 'children': [], 'top': False})
                parent['children'].append(len(out) - 1)
                if rng.random() < 0.5:
                    parent = out[-1]
    return out


def make_request(rng, mon):
    al = [n for n in dict.fromkeys(gen.alphabet(rng, k=rng.randint(2, 6))) if n]
    if rng.random() < 0.3:
        al = [n + s for n in ('ab', 'cd', 'x') for s in ('_1', '_2')]
    raw = make_log(rng, False)
    classes = sorted({e for t in raw for e in t})
    code = {c: al[i % len(al)] for i, c in enumerate(classes)}
    log = [[code[e] for e in t] for t in raw]
    names = sorted({e for t in log for e in t}) or ['z']
    regex = None
    if all(n.split('_')[0] in ('ab', 'cd', 'x') and '_' in n for n in names) and rng.random() < 0.7:
        regex = '[a-z]+'
        mon.event('event class')
    req = dict(log=log, kind=rng.choice(['max', 'super', 'near', 'ptandem', 'mtandem']), max_len=rng.choice([3, 5, 20]),
               strategy=rng.choice(['FromAllTraces', 'FromSingleMergedTrace']), regex=regex,
               narrow=rng.choice(['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']),
               filter=rng.choice(['NoFilter', 'DefaultFilter']), min_events=rng.choice([0, 1, 2, 3]), level=rng.choice([0, 1, 4]),
               activities=None, min_unattached=rng.choice([0, 1, 2, 4]), min_events2=rng.choice([0, 1, 2]),
               use_unattached=rng.random() < 0.5, undef=rng.choice(['drop', 'single', 'all']), ask_level=0)
    req['ask_level'] = req['level'] if rng.random() < 0.8 else req['level'] + 1
    if rng.random() < 0.6:
        req['activities'] = make_activities(rng, names)
        mon.event('hand-made tree')
    else:
        mon.event('discovered tree')
    return req


def run_case(rng, index, mon):
    req = make_request(rng, mon)
    log = req['log']
    out = rust.H.ask('activities', **req)
    processed, nodes, tops = out['processed'], out['nodes'], out['tops']
    # classes: equal names (or equal matched prefixes) and only those share a class
    key = (lambda n: n.split('_')[0]) if req['regex'] else (lambda n: n)
    by = {}
    mon.equal([len(t) for t in processed], [len(t) for t in log], 'one class per event')
    for t, p in zip(log, processed):
        for n, c in zip(t, p):
            by.setdefault(key(n), set()).add(c)
    mon.check(all(len(v) == 1 for v in by.values()) and len({min(v) for v in by.values()}) == len(by),
              'two events are of one class exactly if their names (or matched parts) are equal', log=log, classes=by)
    if req['activities'] is None:
        judge_tree(mon, tops, nodes, {tuple(r): set(processed[r[2]][r[0]:r[0] + r[1]]) for r in out['repeats']}, req['level'], log)
        sets = {}
        for i, row in enumerate(out['patterns']):
            for s, n in row:
                sets.setdefault(frozenset(processed[i][s:s + n]), [s, n, i])
        mon.equal(sorted(out['repeats']), sorted(sets.values()), 'every set of classes of a pattern is one repeat set', log=log)
        for n in nodes:
            s, ln, i = n['repeat']
            mon.equal(n['name'], '::'.join(f'({key(x)})' for x in log[i][s:s + ln]), 'an activity is named after the events of its pattern', log=log)
    else:
        mon.equal(sorted((n['name'], n['len']) for n in nodes),
                  sorted((a['name'], len({key(c) for c in a['classes']})) for i, a in enumerate(req['activities'])), 'harness: the tree was taken over')
    judge_instances(mon, req, processed, nodes, tops, out['instances'], req['min_events'], 'instances')
    both = out['with_unattached']
    judge_instances(mon, req, processed, nodes, tops, both, 0, 'instances after adjusting')
    for t, a, b in zip(processed, out['instances'], both):
        mon.check(all(x in b for x in a), 'adjusting keeps every instance', trace=t, before=a, after=b, request=req)
        gaps, at = [], 0
        for _, s, n in a + [(0, len(t), 0)]:
            gaps.append((at, s))
            at = s + n
        for x in b:
            if x in a:
                continue
            mon.event('adjusted')
            fit = [(p, q) for p, q in gaps if p <= x[1] and x[1] + x[2] <= q]
            mon.check(fit and any(q - p >= req['min_unattached'] for p, q in fit), 'adjusting adds only inside gaps that are large enough',
                      trace=t, added=x, before=a, request=req)
            if req['filter'] == 'DefaultFilter':
                mon.check(nodes[x[0]]['len'] >= req['min_events2'], 'adjusting adds only large enough activities', added=x, request=req)

    used = both if req['use_unattached'] else out['instances']
    rows, logs, rest, per_level = [], {}, [], {}
    mon.event('undefined:' + req['undef'])
    for t, inst in zip(log, used):
        row, left, at = [], [], 0
        for node, s, n in [tuple(x) for x in inst] + [(None, len(t), 0)]:
            gap = t[at:s]
            left += gap
            if gap:
                mon.event('uncovered event')
                if req['undef'] == 'single':
                    row.append(('UNDEFINED_ACTIVITY', ['UNDEFINED_ACTIVITY'], True))
                elif req['undef'] == 'all':
                    row += [(g, [g], True) for g in gap]
            if node is not None:
                part = t[s:s + n]
                name = nodes[node]['name']
                row.append((name, part, False))
                logs.setdefault(name, []).append(part)
                if nodes[node]['level'] == req['ask_level']:
                    per_level.setdefault(name, []).append(part)
            at = s + n
        rows.append(row)
        rest.append(left)
    if not logs:
        mon.event('no instance')
    got = [[(e['name'], e['all'], e['plain']) for e in t] for t in out['rows']]
    mon.equal(got, rows, 'the abstracted log: every instance is one event, the rest as requested, in order, with exactly the events it stands for',
              instances=used, request=req)
    for t in out['rows']:
        for e in t:
            mon.equal(e['imm'], e['all'], 'the events directly below and below at all agree for one level', event=e)
    mon.equal(out['count'], sum(len(x[1]) for t in rows for x in t), 'the number of underlying events', request=req)
    mon.equal(out['substituted'], [[n for x in t for n in x[1]] for t in rows], 'putting the underlying events back gives them in order', request=req)
    mon.equal(out['from_log'], logs, 'the log of an activity holds exactly its occurrences in the abstracted log', request=req)
    if req['ask_level'] != req['level']:
        mon.event('other level')
    mon.equal(out['from_instances'], per_level, 'the log of an activity holds exactly its instances of the asked level', request=req)
    if any(len(v) > 1 for v in logs.values()):
        mon.event('same name twice')
    mon.equal(out['unattached'], rest, 'the log of unattached events holds exactly the events outside instances', instances=used, request=req)
    mon.equal(out['original'], log, 'the log itself is not changed', request=req)
    second = []
    for t in rows:
        row = []
        for i in range(0, len(t) - 1, 2):
            row.append(('PAIR', t[i][1] + t[i + 1][1], [t[i][0], t[i + 1][0]]))
            mon.event('nested')
        if len(t) % 2:
            row.append((t[-1][0], t[-1][1], None))
        second.append(row)
    got2 = [[(e['name'], e['all'], e['imm'] if e['name'] == 'PAIR' and not e['plain'] and len(e['imm']) == 2 else None) for e in t] for t in out['second']]
    exp2 = [[(a, b, c) for a, b, c in t] for t in second]
    mon.equal([[x[:2] for x in t] for t in got2], [[x[:2] for x in t] for t in exp2], 'abstraction of an abstracted log keeps all events below', request=req)
    for g, e in zip(got2, exp2):
        for x, y in zip(g, e):
            if y[2] is not None:
                mon.equal(x[2], y[2], 'the direct parts of an event of an abstracted log', request=req)
    mon.equal(out['second_count'], sum(len(x[1]) for t in rows for x in t), 'abstracting again keeps the number of underlying events', request=req)
    if any(used):
        mon.distinct(log, used)
        mon.sample({'log': log, 'instances': used})

"""P43: containers of the backend: interval tree, sets, graph, distances, user data, colours (Rust)."""
import math
from collections import Counter

from .. import rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401

ID = 'P43'
LEVEL = 'exploration'
CASES = {'quick': 20000, 'thorough': 600000}
RULE = ('random sequences of operations on the containers that the backend\'s algorithms are made of: interval trees (nested, equal, point and no intervals; '
        'point, overlap and envelope queries), pairs of sets and sets, graphs (adding, connecting, disconnecting, merging clusters, unknown nodes), vectors '
        '(equal and different lengths), user data (several objects, clones, two key types) and colours; every answer of the real Rust code after every step '
        'is compared with a plain list, set, dictionary or table; non-trivial: at least two operations')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (ndarray views over a slice; L1 and L2 distances of linfa-nn)',
               'a value that two user data objects share after a clone is not edited in place',
               'cosine distance of a zero vector, and sums of a merged graph beyond 1e6, are left out']
REQUIRED_EVENTS = ['tree', 'empty tree', 'point hit', 'overlap hit', 'envelope hit', 'point interval at the right end', 'nested', 'equal intervals',
                   'two sets', 'same elements, other border', 'equal pairs', 'one set', 'graph step', 'second connect', 'unknown node', 'self loop',
                   'disconnect', 'merge', 'inner edge dropped', 'edges summed', 'both directions', 'distance', 'other length', 'levenshtein', 'cosine',
                   'userdata step', 'clone', 'changed after clone', 'removed', 'edited in place', 'two types', 'colours', 'same colour again']
WORDS = ['a', 'b', 'c', 'ab', 'bc', '', 'é', 'a,b']


def tree(mon, H, rng):
    mon.event('tree')
    span = rng.choice([3, 6, 12, 40])
    low = rng.choice([0, -5, 1 << 40])
    ivs = []
    for k in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 14, 30])):
        if ivs and rng.random() < 0.15:
            l, r, _ = rng.choice(ivs)
            mon.event('equal intervals')
        else:
            l = low + rng.randrange(span)
            r = l + rng.choice([0, 0, 1, 2, rng.randrange(span)])
        ivs.append([l, r, rng.choice([k, k, 0])])
    mon.event('empty tree', not ivs)
    mon.event('nested', any(a is not b and a[0] < b[0] and b[1] < a[1] for a in ivs for b in ivs))
    qs, exp = [], []
    for _ in range(rng.randint(1, 12)):
        kind = rng.choice(['point', 'overlap', 'env'])
        l = low + rng.randint(-1, span + 1)
        r = l + rng.randint(-1, span)
        if ivs and rng.random() < 0.5:
            l, r = rng.choice(ivs)[0], rng.choice(ivs)[1]
        qs.append([kind, l, r])
        if kind == 'point':
            hit = [i for i in ivs if i[0] <= l <= i[1]]
        elif kind == 'overlap':
            hit = [i for i in ivs if l <= r and i[0] <= r and l <= i[1]]
        else:
            hit = [i for i in ivs if l < r and l <= i[0] and i[1] <= r]
            mon.event('point interval at the right end', any(i[0] == i[1] == r for i in hit))
        mon.event({'point': 'point hit', 'overlap': 'overlap hit', 'env': 'envelope hit'}[kind], bool(hit))
        exp.append(sorted({tuple(i) for i in hit}))
    out = H.ask('intervals', intervals=ivs, queries=qs)
    for q, o, e in zip(qs, out, exp):
        mon.equal(sorted(tuple(i) for i in o), e, 'interval tree: the answer of a query', query=q, intervals=ivs)
        mon.check([i[0] for i in o] == sorted(i[0] for i in o), 'interval tree: the answer is ordered by the left end', answer=o, query=q)
    mon.distinct('tree', repr((ivs, qs)))


def sets(mon, H, rng):
    some = lambda: rng.sample(WORDS, rng.choice([0, 1, 1, 2, 3]))
    two = []
    for _ in range(rng.randint(1, 5)):
        a, b = some(), some()
        if two and rng.random() < 0.5:
            a, b = rng.choice(two)
            if rng.random() < 0.6:
                both = sorted(a) + sorted(b)
                k = rng.randint(0, len(both))
                a, b = both[:k], both[k:]
        two.append([a, b])
    one = [some() for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
        one.append(list(reversed(rng.choice(one))))
    out = H.ask('sets', two=two, one=one)
    k = 0
    for x in two:
        for y in two:
            x1, x2, y1, y2 = set(x[0]), set(x[1]), set(y[0]), set(y[1])
            mon.event('two sets')
            same = (x1, x2) == (y1, y2)
            mon.event('equal pairs', same and x is not y)
            mon.event('same elements, other border', not same and sorted(x1) + sorted(x2) == sorted(y1) + sorted(y2))
            show = '({' + ','.join(sorted(x1)) + '}, {' + ','.join(sorted(x2)) + '})'
            mon.equal(out['two'][k], [same, x1 <= y1 and x2 <= y2, x1 <= y1, x2 <= y2, sorted(x1 | y1), sorted(x2 | y2), show, True],
                      'pair of sets: equal, subset (both, first, second), union, text, clone', pair=[x, y])
            k += 1
    k = 0
    for x in one:
        for y in one:
            mon.event('one set')
            mon.equal(out['one'][k], [set(x) == set(y), sorted(set(x) | set(y)), sorted(set(x)), True], 'set: equal, union, clone, own identifier', pair=[x, y])
            k += 1
    mon.equal(out['distinct_two'], len({(frozenset(a), frozenset(b)) for a, b in two}), 'pair of sets: number of distinct ones', sets=two)
    mon.equal(out['distinct_one'], len({frozenset(a) for a in one}), 'set: number of distinct ones', sets=one)
    mon.distinct('sets', repr((two, one)))


def graph(mon, H, rng):
    ops, known = [], 0
    gone = set()
    for _ in range(rng.randint(2, 22)):
        live = [i for i in range(known) if i not in gone]
        pick = lambda: rng.choice(live) if live and rng.random() < 0.93 else rng.choice(list(gone) + [None])
        x = rng.random()
        if known < 2 or x < 0.25:
            ops.append(['add', rng.choice(WORDS + [None])])
            known += 1
        elif x < 0.75:
            ops.append(['connect', pick(), pick(), rng.choice([None, 1.0, 2.5, 4.0, 100.0])])
        elif x < 0.85:
            ops.append(['disconnect', pick(), pick()])
        elif live:
            part = rng.sample(live, rng.randint(1, min(4, len(live))))
            ops.append(['merge', part])
            gone |= set(part)
            known += 1
    out = H.ask('graph', ops=ops)
    ids = out['ids']
    mon.equal(len(set(ids)), len(ids), 'graph: every node has its own identifier', ids=ids)
    nodes, edges = {}, {}
    at = lambda i: None if i is None else ids[i]
    fresh = 0
    for op, step in zip(ops, out['steps']):
        mon.event('graph step')
        if op[0] == 'add':
            nodes[ids[fresh]] = op[1]
            fresh += 1
        elif op[0] == 'connect':
            a, b = at(op[1]), at(op[2])
            if a not in nodes or b not in nodes:
                mon.event('unknown node')
            elif (a, b) in edges:
                mon.event('second connect')
            else:
                edges[a, b] = op[3]
                mon.event('self loop', a == b)
                mon.event('both directions', a != b and (b, a) in edges)
        elif op[0] == 'disconnect':
            pair = (at(op[1]), at(op[2]))
            mon.event('disconnect', pair in edges)
            mon.equal(step['answer'], pair in edges, 'graph: disconnect says whether there was an edge', ops=ops)
            edges.pop(pair, None)
        else:
            part = {at(i) for i in op[1]}
            new = ids[fresh]
            fresh += 1
            mon.event('merge')
            mon.equal(step['answer'], 1, 'graph: a merge makes one new node', ops=ops)
            nodes[new] = '+'.join(sorted('-' if nodes[i] is None else nodes[i] for i in part))
            sums, times = {}, Counter()
            for (a, b), w in list(edges.items()):
                if a in part and b in part:
                    mon.event('inner edge dropped')
                elif a in part or b in part:
                    key = (new, b) if a in part else (a, new)
                    sums[key] = sums.get(key, 0.0) + (w or 0.0)
                    times[key] += 1
                else:
                    continue
                del edges[a, b]
            mon.event('edges summed', any(v > 1 for v in times.values()))
            edges.update(sums)
            for i in part:
                del nodes[i]
        mon.equal(sorted(step['nodes'], key=lambda n: n[0]), sorted([i, d] for i, d in nodes.items()), 'graph: nodes', ops=ops)
        mon.equal(sorted(([a, b, w] for a, b, w in step['edges']), key=lambda e: e[:2]), sorted(([a, b, w] for (a, b), w in edges.items()), key=lambda e: e[:2]),
                  'graph: edges', ops=ops)
        mon.equal(sorted(tuple(p) for p in step['joined']), sorted(edges), 'graph: are two nodes connected', ops=ops)
        mon.equal(sorted(a[0] for a in step['around']), sorted(nodes), 'graph: nodes', ops=ops)
        for n, around, after, before in step['around']:
            o = {b for a, b in edges if a == n}
            i = {a for a, b in edges if b == n}
            mon.equal(sorted(after), sorted(o), 'graph: nodes after a node', ops=ops, node=n)
            mon.equal(sorted(before), sorted(i), 'graph: nodes before a node', ops=ops, node=n)
            mon.equal(sorted(set(around)), sorted(o | i), 'graph: nodes around a node', ops=ops, node=n)
    mon.equal(out['known'], [i in nodes for i in ids], 'graph: nodes that can be asked for', ops=ops)
    text = lambda w: None if w is None else float(w)
    mon.equal(sorted(([a, b, text(w)] for a, b, w in byname(out['plain'])), key=repr), sorted(([nodes[a], nodes[b], w] for (a, b), w in edges.items()), key=repr),
              'graph: the copy with texts has the same edges', ops=ops)
    mon.equal(sorted((n[1] for n in out['plain']['nodes']), key=repr), sorted(nodes.values(), key=repr), 'graph: the copy with texts has the same nodes', ops=ops)
    mon.distinct('graph', repr(ops))


def byname(g):
    d = {i: n for i, n in g['nodes']}
    return [[d[a], d[b], w] for a, b, w in g['edges']]


def levenshtein(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        new = [i]
        for j, y in enumerate(b, 1):
            new.append(min(new[-1] + 1, row[j] + 1, row[j - 1] + (x != y)))
        row = new
    return float(row[-1])


def distance(mon, H, rng):
    kind = rng.choice(['Levenshtein', 'Levenshtein', 'Cosine', 'L1', 'L2'])
    num = lambda: float(rng.choice([0, 1, 2, 3, -1, 0.5]))
    a = [num() for _ in range(rng.randint(0 if kind == 'Levenshtein' else 1, 8))]
    if kind == 'Levenshtein':
        b = list(a) if rng.random() < 0.5 else [num() for _ in range(rng.randint(0, 8))]
        for _ in range(rng.randint(0, 3)):
            if b and rng.random() < 0.5:
                b.pop(rng.randrange(len(b)))
            else:
                b.insert(rng.randint(0, len(b)), num())
        mon.event('levenshtein')
        mon.event('other length', len(a) != len(b))
        exp = levenshtein(a, b)
    else:
        b = [num() for _ in a]
        if kind == 'Cosine':
            if not any(a) or not any(b):
                return
            mon.event('cosine')
            exp = 1 - sum(x * y for x, y in zip(a, b)) / math.sqrt(sum(x * x for x in a)) / math.sqrt(sum(x * x for x in b))
        else:
            exp = sum(abs(x - y) for x, y in zip(a, b)) if kind == 'L1' else math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    mon.event('distance')
    out = [float(x) for x in H.ask('distance', a=a, b=b, kind=kind)]
    mon.check(all(abs(x - exp) < 1e-9 for x in out), 'distance of two vectors (distance, reduced distance, the other way round)', kind=kind, a=a, b=b, exact=exp,
              answers=out)


def userdata(mon, H, rng):
    n = rng.randint(1, 3)
    ops, objs, token, steps = [], [{}], 0, []
    for _ in range(rng.randint(2, 16)):
        d, k, v = rng.randrange(len(objs)), rng.randrange(n), rng.choice(WORDS)
        op = rng.choice(['put', 'put', 'put_any', 'put_num', 'append', 'inc', 'remove', 'remove_any', 'remove_key', 'remove_num', 'clone', 'drop'])
        o = objs[d]
        key = ('n' if op in ('put_num', 'inc', 'remove_num') else 's', k)
        if op in ('append', 'inc') and key in o and any(p is not o and p.get(key, (0,))[0] == o[key][0] for p in objs):
            continue
        if op == 'put_num':
            v = rng.randint(-3, 3)
        if op == 'clone' and len(objs) > 4 or op == 'drop' and rng.random() < 0.7:
            continue
        ops.append([op, d, k, v])
        if op.startswith('put'):
            token += 1
            mon.event('changed after clone', len(objs) > 1)
            o[key] = (token, v)
        elif op in ('append', 'inc'):
            if key in o:
                mon.event('edited in place')
                o[key] = (o[key][0], o[key][1] + (v if op == 'append' else 1))
        elif op.startswith('remove'):
            mon.event('removed', key in o)
            o.pop(key, None)
        elif op == 'clone':
            mon.event('clone', bool(o))
            objs.append(dict(o))
        else:
            objs[d] = {}
        steps.append([{'len': len(p), 's': [p.get(('s', i), (0, None))[1] for i in range(n)], 'n': [p.get(('n', i), (0, None))[1] for i in range(n)]}
                      for p in objs])
        mon.event('two types', any({t for t, _ in p} == {'s', 'n'} for p in objs))
    names = [rng.choice(WORDS) for _ in range(rng.randint(0, 10))]
    out = H.ask('userdata', keys=n, ops=ops, colors=names)
    mon.equal(out['ids'], 2 * n, 'user data: every key has its own identifier')
    for i, (got, exp) in enumerate(zip(out['steps'], steps)):
        mon.event('userdata step')
        for g, e in zip(got, exp):
            e = dict(e, g=e['s'], y=e['s'])
            mon.equal(g, e, 'user data: what every key holds after a step', ops=ops[:i + 1])
        mon.equal(len(got), len(exp), 'user data: objects')
    colors = {}
    for name, c in zip(names, out['colors']):
        mon.event('colours')
        if name in colors:
            mon.event('same colour again')
            mon.equal(c, colors[name], 'colours: a name keeps its colour', names=names)
        colors[name] = c
    mon.equal(len({tuple(c) for c in colors.values()}), len(colors), 'colours: different names have different colours', names=names)
    mon.distinct('userdata', repr(ops))


PARTS = [tree, tree, sets, graph, graph, distance, userdata]


def run_case(rng, index, mon):
    PARTS[index % len(PARTS)](mon, rust.H, rng)

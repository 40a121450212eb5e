"""P44: heuristic and fuzzy miners of the backend (Rust)."""
from collections import Counter
from itertools import combinations, permutations

from .. import rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401
from .p40 import make_log

ID = 'P44'
LEVEL = 'exploration'
CASES = {'quick': 16000, 'thorough': 400000}
RULE = ('random logs (small processes with choices, concurrency and loops; random traces; empty traces and logs) with random time stamps and thresholds '
        'are mined by the real Rust heuristic and fuzzy miners; the nets and graphs are compared with the definitions: dependency, relative-to-best, AND and '
        'length-two-loop measures; frequencies, conflict resolution, edge filter and every clustering that the rules allow, whatever the order of the nodes; '
        'non-trivial: at least two classes')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins', 'thresholds are not negative',
               'a log where a measure lies within 1e-9 of a threshold is not judged by that measure',
               'two or more arcs between the same place and transition of a heuristic net count as one']
REQUIRED_EVENTS = ['heuristic', 'dependency', 'not best', 'below observations', 'self dependency', 'and group', 'large and group', 'several groups', 'xor follower',
                   'loop of two', 'no follower', 'fuzzy', 'class dropped', 'edge dropped', 'conflict kept', 'conflict one way', 'conflict both removed', 'self conflict',
                   'edge filtered', 'cluster', 'cluster of several', 'two clusters', 'merged clusters', 'lonely node', 'several clusterings allowed', 'edge into cluster',
                   'equal utility', 'choice between clusters of different sizes', 'choice that stays visible']
EPS = 1e-9


def dfg(log):
    return Counter((a, b) for t in log for a, b in zip(t, t[1:]))


def near(a, b):
    return abs(a - b) < EPS


def heuristic(mon, H, log, rng):
    mon.event('heuristic')
    th = dict(dep=rng.choice([0, 0.3, 0.5, 0.7, 0.95]), pos=rng.choice([0, 1, 1, 1, 2, 2, 3, rng.choice([3, 256, 65536, 2 ** 32 - 1])]), rel=rng.choice([0, 0.05, 0.3, 0.8, 1]),
              loop2=rng.choice([0.4, 0.6, 0.7, 0.95]))
    th['and'] = rng.choice([0.1, 0.3, 0.65, 1.2])
    th = getattr(H, 'rounded', dict)(th)
    net = H.ask('heuristic', log=log, **th)['net']
    df = dfg(log)
    classes = sorted({e for t in log for e in t})
    tri = Counter((a, b) for t in log for a, b, c in zip(t, t[1:], t[2:]) if a == c and a != b)
    fuzzy_edge = False
    follow = {}
    for a in classes:
        got = {}
        for b in classes:
            ab, ba = df[a, b], df[b, a]
            if ab < th['pos']:
                mon.event('below observations', ab > 0)
                continue
            m = (ab - ba) / (ab + ba + 1) if a != b else ab / (ab + 1)
            fuzzy_edge |= near(m, th['dep']) and not m == th['dep']
            if m > th['dep']:
                got[b] = m
        if got:
            low = max(got.values()) * (1 - th['rel'])
            fuzzy_edge |= any(near(m, low) and m != low for m in got.values())
            keep = {b for b, m in got.items() if not m < low}
            mon.event('not best', len(keep) < len(got))
            follow[a] = keep
            mon.event('dependency')
            mon.event('self dependency', a in keep)
    mon.event('no follower', len(follow) < len(classes))
    places, arcs = [], []
    for a, fs in follow.items():
        both = {frozenset(p) for p in combinations(sorted(fs), 2) if (df[p] + df[p[1], p[0]]) / (df[a, p[0]] + df[a, p[1]] + 1) > th['and']}
        cliques = [frozenset(c) for k in range(2, len(fs) + 1) for c in combinations(sorted(fs), k) if all(frozenset(p) in both for p in combinations(c, 2))]
        groups = [c for c in cliques if not any(c < d for d in cliques)]
        mon.event('and group', bool(groups))
        mon.event('large and group', any(len(g) > 2 for g in groups))
        mon.event('several groups', len(groups) > 1)
        post = ('post', a)
        places.append(post)
        arcs.append((('t', a), post))
        for g in groups:
            s = ('silent', a, g)
            arcs.append((post, s))
            for e in g:
                p = ('pre', a, g, e)
                places.append(p)
                arcs += [(s, p), (p, ('t', e))]
        rest = fs - {e for g in groups for e in g}
        mon.event('xor follower', bool(rest))
        arcs += [(post, ('t', e)) for e in rest]
    extra = []
    for a in classes:
        for b in classes:
            n = tri[a, b] + tri[b, a]
            if a != b and n / (n + 1) > th['loop2']:
                mon.event('loop of two')
                extra += [(p, ('t', a)) for t, p in arcs if t == ('t', b)] + [(('t', a), p) for p, t in arcs if t == ('t', b)]
    arcs = set(arcs + extra)
    if fuzzy_edge:
        return
    # the places of the real net are known by what is around them
    names = {t['id']: t for t in net['transitions']}
    mon.equal(sorted(t['name'] for t in names.values() if not t['silent']), classes, 'heuristic: one visible transition per class', log=log, thresholds=th)
    mon.check(all(t['data'] == t['name'] for t in names.values()), 'heuristic: a transition carries its name', net=net)
    ins, outs = {p[0]: set() for p in net['places']}, {p[0]: set() for p in net['places']}
    for t in names.values():
        for p, _, n in t['out']:
            mon.check(p in ins and n == 1, 'heuristic: arcs carry one token', net=net)
            ins[p].add(t['id'])
        for p, _, n in t['in']:
            mon.check(p in ins and n == 1, 'heuristic: arcs carry one token', net=net)
            outs[p].add(t['id'])

    def label(i):
        t = names[i]
        return ('t', t['name']) if not t['silent'] else \
            ('s', frozenset(names[x]['name'] for p, _, _ in t['in'] for x in ins[p] if not names[x]['silent']),
             tuple(sorted(tuple(sorted(names[x]['name'] for x in outs[p] if not names[x]['silent'])) for p, _, _ in t['out'])))

    got = Counter((frozenset(map(label, ins[p])), frozenset(map(label, outs[p]))) for p in ins)
    pin, pout = {p: set() for p in places}, {p: set() for p in places}
    for x, y in arcs:
        if y in pin:
            pin[y].add(x)
        else:
            pout[x].add(y)

    def elabel(x):
        if x[0] == 't':
            return x
        return ('s', frozenset(t[1] for t in pin['post', x[1]] if t[0] == 't'),
                tuple(sorted(tuple(sorted(t[1] for t in pout[p] if t[0] == 't')) for p in places if p[:1] == ('pre',) and p[1:3] == x[1:])))

    exp = Counter((frozenset(map(elabel, pin[p])), frozenset(map(elabel, pout[p]))) for p in places)
    show = lambda c: sorted(((sorted(map(repr, i)), sorted(map(repr, o))), n) for (i, o), n in c.items())
    mon.equal(show(got), show(exp), 'heuristic: the places, by the transitions before and after them', log=log, thresholds=th)
    mon.equal(sum(t['silent'] for t in names.values()), sum(1 for x in {x for p in arcs for x in p} if x[0] == 'silent'), 'heuristic: silent transitions', log=log)
    mon.distinct('heuristic', repr((log, th)))


def correlation(log, times, cache, a, b):
    if (a, b) not in cache:
        s, n = 0.0, 0
        for t, ts in zip(log, times):
            last = None
            for e, x in zip(t, ts):
                if e == a:
                    last = x
                elif e == b and last is not None:
                    s += (x - last) * 1000
                    n += 1
                    last = None
        cache[a, b] = s / n if n else 0.0
    return cache[a, b]


def clusterings(edges, weak, corr):
    """Every partition that the rules allow, whatever the order of nodes and ties."""
    around = {n: {b for a, b in edges if a == n} | {a for a, b in edges if b == n} for n in weak}
    best = {}
    for n in weak:
        near_by = [(corr(n, m), m) for m in around[n] if m != n]
        if near_by:
            top = max(near_by)[0]
            best[n] = [m for c, m in near_by if c > top - EPS]
    members = sorted(best)
    if len(members) > 5:
        return None
    starts = set()
    for order in permutations(members):
        states = {frozenset()}
        for n in order:
            new = set()
            for st in states:
                for m in best[n]:
                    home = next((c for c in st if m in c), None)
                    new.add(st - {home} | {home | {n}} if home else st | {frozenset([n])})
            states = new
        starts |= states
    done, seen, todo, sizes = set(), set(starts), list(starts), False
    while todo:
        st = todo.pop()
        moved = False
        for c in st:
            for way in (lambda n: {b for a, b in edges if a == n}, lambda n: {a for a, b in edges if b == n}):
                others = set().union(*(way(n) for n in c)) - c
                homes = {next((d for d in st if n in d), None) for n in others}
                if None in homes or not homes:
                    continue
                score = {d: sum(corr(x, y) for x in c for y in d) / (len(c) * len(d)) for d in homes}
                top = max(score.values())
                sizes |= len(homes) > 1 and len(set(map(len, homes))) > 1
                for d in homes:
                    if score[d] > top - EPS * max(1, abs(top)):
                        nxt = st - {c, d} | {c | d}
                        if nxt not in seen:
                            seen.add(nxt)
                            todo.append(nxt)
                moved = True
                break
        if not moved:
            done.add(st)
    return done, any(s not in done for s in starts), sizes


def make_weak_log(rng):
    """Rare classes between frequent ones: several clusters, of different sizes, that have to choose whom to join."""
    weak = [f'w{i}' for i in range(rng.choice([3, 4, 4, 5]))]
    strong = [f'S{i}' for i in range(rng.choice([1, 1, 2]))]
    nexts = {w: rng.sample(weak, rng.randint(0, min(3, len(weak)))) for w in weak}
    log = []
    for _ in range(rng.randint(3, 9)):
        t = [rng.choice(weak)]
        while len(t) < 4 and nexts[t[-1]] and rng.random() < 0.7:
            t.append(rng.choice(nexts[t[-1]]))
        ends = [[rng.choice(strong)] if rng.random() < 0.6 else [] for _ in range(2)]
        log.append(ends[0] + t + ends[1])
    top = max(Counter(e for t in log for e in t if e in weak).values())
    return log + [[s] * (top + 1) for s in strong], dict(unary=0, binary=0, preserve=0, edge_cutoff=0, node_cutoff=top + 1)


def fuzzy(mon, H, log, rng, fixed={}):
    mon.event('fuzzy')
    times = []
    for t in log:
        x, ts = rng.randint(0, 50), []
        for _ in t:
            ts.append(x)
            x += rng.choice([0, 1, 5, 30, rng.randint(0, 400)])
        times.append(ts)
    count = Counter(e for t in log for e in t)
    df = dfg(log)
    th = dict(unary=rng.choice([0, 0, 0, 1, 2]), binary=rng.choice([0, 0, 0, 1]), preserve=rng.choice([0, 0.2, 0.4, 0.6, 1]), ratio=rng.choice([0, 0.05, 0.2, 0.5]),
              utility=rng.choice([0, 0.3, 0.5, 0.9, 1]), edge_cutoff=rng.choice([0, 0, 0.2, 0.5, 1]), node_cutoff=rng.choice([0, 1, 2, 3, 4, 9]))
    th.update(fixed)
    th = getattr(H, 'rounded', dict)(th)
    graph = H.ask('fuzzy', log=log, times=times, **th)
    nodes = {c for c in count if count[c] > th['unary']}
    mon.event('class dropped', len(nodes) < len(count))
    edges = {p: float(n) for p, n in df.items() if n > th['binary'] and set(p) <= nodes}
    mon.event('edge dropped', len(edges) < len(df))
    cache, unsure = {}, False
    rel = lambda a, b: 0.5 * df[a, b] / sum(df[a, n] for n in nodes) + 0.5 * df[a, b] / sum(df[n, b] for n in nodes)
    for a, b in sorted(edges):
        if a <= b and (a, b) in edges and (b, a) in edges:
            x, y = rel(a, b), rel(b, a)
            unsure |= near(x, th['preserve']) or near(y, th['preserve']) or a != b and near(abs(x - y), th['ratio']) and not x == y
            if not (x < th['preserve'] or y < th['preserve']):
                mon.event('conflict kept')
            elif abs(x - y) > th['ratio']:
                mon.event('conflict one way')
                edges.pop((a, b) if x < y else (b, a))
            else:
                mon.event('conflict both removed' if a != b else 'self conflict')
                edges.pop((a, b), None)
                edges.pop((b, a), None)
    corr = lambda a, b: correlation(log, times, cache, a, b)
    for b in sorted(nodes):
        use = {a: th['utility'] * df[a, b] + (1 - th['utility']) * corr(a, b) for a, c in edges if c == b}
        if not use:
            continue
        lo, hi = min(use.values()), max(use.values())
        if lo == hi or near(lo, hi):
            mon.event('equal utility', len(use) > 1)
            unsure |= lo != hi
            if th['edge_cutoff'] > 1:
                unsure = True
            continue
        for a, u in use.items():
            v = (u - lo) / (hi - lo)
            unsure |= near(v, th['edge_cutoff']) and v not in (0.0, 1.0)
            if v < th['edge_cutoff']:
                mon.event('edge filtered')
                edges.pop((a, b))
    if unsure:
        return
    weak = {n for n in nodes if count[n] < th['node_cutoff']}
    shown, members = {}, {}
    for i, name in graph['nodes']:
        if name.startswith('Cluster['):
            members[i] = frozenset(name[len('Cluster['):-1].split(','))
        else:
            members[i] = frozenset([name])
        shown[i] = name
    flat = [n for m in members.values() for n in m]
    mon.equal(sorted(flat), sorted(nodes), 'fuzzy: every class above the threshold is in exactly one node', graph=graph, log=log, thresholds=th)
    clusters = frozenset(members[i] for i, n in shown.items() if n.startswith('Cluster['))
    touched = {x for a, b in edges for x in (a, b) if a != b}
    mon.event('lonely node', bool(weak - touched))
    mon.equal(sorted(n for c in clusters for n in c), sorted(weak & touched), 'fuzzy: exactly the insignificant nodes with a neighbour are clustered', graph=graph,
              log=log, thresholds=th)
    mon.event('cluster', bool(clusters))
    mon.event('cluster of several', any(len(c) > 1 for c in clusters))
    mon.event('two clusters', len(clusters) > 1)
    for c in clusters:
        part, todo = set(), [min(c)]
        while todo:
            n = todo.pop()
            if n not in part:
                part.add(n)
                todo += [y for a, b in edges for x, y in ((a, b), (b, a)) if x == n and y in c]
        mon.check(part == c, 'fuzzy: a cluster hangs together', cluster=sorted(c), edges=sorted(edges), log=log, thresholds=th)
    home = {n: m for m in members.values() for n in m}
    exp = Counter()
    for (a, b), w in edges.items():
        if home[a] is not home[b] or home[a] not in clusters:
            exp[home[a], home[b]] += w
            mon.event('edge into cluster', home[b] in clusters)
    got = {(members[a], members[b]): float(w) for a, b, w in graph['edges']}
    mon.equal(len(got), len(graph['edges']), 'fuzzy: one edge per pair of nodes', graph=graph)
    show = lambda g: sorted((sorted(a), sorted(b), w) for (a, b), w in g.items())
    mon.equal(show(got), show(exp), 'fuzzy: edges, summed over clusters', log=log, times=times, thresholds=th)
    allowed = clusterings(set(edges), weak, corr)
    if allowed is not None:
        allowed, merged, sizes = allowed
        mon.event('choice between clusters of different sizes', sizes)
        mon.event('choice that stays visible', sizes and len(clusters) > 1)
        mon.event('several clusterings allowed', len(allowed) > 1)
        mon.event('merged clusters', merged and any(len(c) > 1 for c in clusters))
        mon.check(clusters in allowed, 'fuzzy: the clusters follow from the rules', clusters=[sorted(c) for c in clusters],
                  allowed=[[sorted(c) for c in a] for a in list(allowed)[:5]], log=log, times=times, thresholds=th)
    mon.distinct('fuzzy', repr((log, th)))


def plain(log):
    """Class names without the signs that cluster names are made of."""
    names = {}
    for t in log:
        for e in t:
            names.setdefault(e, f'{len(names)}' + ''.join(c for c in e if c not in ',[]'))
    return [[names[e] for e in t] for t in log]


def run_case(rng, index, mon):
    log = make_log(rng)
    if index % 2:
        return heuristic(mon, rust.H, log * rng.choice([1, 1, 2, 3]), rng)
    if index % 4 == 2:
        log, fixed = make_weak_log(rng)
        return fuzzy(mon, rust.H, log, rng, fixed)
    fuzzy(mon, rust.H, plain(log) * rng.choice([1, 1, 2]), rng)

"""P40: nets of the alpha miners of the backend (Rust)."""
import itertools
from collections import Counter

from .. import rust
from ..nfcref import Nfc
from ..rust import prepare, worker_start, worker_end  # noqa: F401

ID = 'P40'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('random logs over 1..7 classes (processes with choice, concurrency, loops of length one and two, noise, empty and one-event traces); the nets '
        'of the alpha, alpha+ and alpha++ miners of the real Rust code are compared with an enumeration of all pairs of sets of classes, the net of '
        'alpha++ nfc with its relations computed over sets and with its own result for a renamed and reordered log; non-trivial: at least one place between two classes')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins', 'names of classes contain none of the characters of the notation of sets',
               'alpha++ nfc is judged by its structure and by metamorphic relations only where its relation of remote succession '
               'depends on when it is decided']
REQUIRED_EVENTS = ['alpha', 'plus', 'plusplus', 'nfc', 'place', 'place of sets', 'one-length loop', 'loop at start', 'loop at end', 'loop place shared',
                   'loop place new', 'two-length loop', 'short trace', 'empty trace', 'empty log', 'parallel', 'nfc place', 'nfc w1', 'nfc w2', 'nfc w3', 'nfc triples', 'nfc compared', 'nfc directed', 'first request']
NAMES = [list('abcdefg'), ['a', 'ab', 'b', 'ba', 'aa', 'bb', 'abc'], ['é', 'x y', '<&>', "'q\"", 'A', 'Ω', '0'],
         ['StartPlace', 'EndPlace', 'start', 'end', 'FAKE_START', 'x', 'y']]


def pairs(log):
    return {p for t in log for p in zip(t, t[1:])}


def maximal(classes, causal, unrelated):
    """All maximal pairs (A, B): everything in A causes everything in B, nothing in A (in B) is related."""
    cs = [c for c in classes if unrelated(c, c)]
    free = [frozenset(s) for n in range(1, len(cs) + 1) for s in itertools.combinations(cs, n)
            if all(unrelated(x, y) for x, y in itertools.combinations(s, 2))]
    found = set()
    for a in free:
        after = {b for b in cs if all(causal(x, b) for x in a)}
        if after:
            found |= {(a, b) for b in free if b <= after}
    return {x for x in found if not any(x != y and x[0] <= y[0] and x[1] <= y[1] for y in found)}


def show(a, b):
    return '({%s}, {%s})' % (','.join(sorted(a)), ','.join(sorted(b)))


def expected(log, kind, mon):
    """name of place -> (transitions into it, transitions out of it), transitions."""
    full = pairs(log)
    loops = set() if kind == 'alpha' else {a for a, b in full if a == b}
    kept = [[e for e in t if e not in loops] for t in log]
    df = pairs(kept)
    tri = {(t[i], t[i + 1]) for t in log for i in range(len(t) - 2) if t[i] == t[i + 2]} if kind != 'alpha' else set()

    def causal(a, b):
        if (a, b) not in df:
            return False
        if (b, a) not in df:
            return True
        if (a, b) in tri and (b, a) in tri:
            mon.event('two-length loop')
            return True
        mon.event('parallel')
        return False

    classes = sorted({e for t in kept for e in t})
    out = []
    sets = maximal(classes, causal, lambda a, b: (a, b) not in df and (b, a) not in df)
    by_name = {}
    for a, b in sets:
        mon.event('place')
        if len(a) + len(b) > 2:
            mon.event('place of sets')
        out.append([show(a, b), sorted(a), sorted(b)])
        by_name[show(a, b)] = out[-1]
    out.append(['StartPlace', [], sorted({t[0] for t in kept if t})])
    out.append(['EndPlace', sorted({t[-1] for t in kept if t}), []])
    for x in sorted(loops):
        mon.event('one-length loop')
        mon.event('loop at start', sum(t[:1] == [x] for t in log))
        mon.event('loop at end', sum(t[-1:] == [x] for t in log))
        name = show({a for a, b in full if b == x} - {x}, {b for a, b in full if a == x} - {x})
        if name in by_name:
            mon.event('loop place shared')
        else:
            mon.event('loop place new')
            out.append([name, [], []])
            by_name[name] = out[-1]
        by_name[name][1].append(x)
        by_name[name][2].append(x)
    return sorted([n, sorted(a), sorted(b)] for n, a, b in out), sorted(classes + sorted(loops)), len(sets)


def places_of(net):
    at = {p[0]: [p[1], [], []] for p in net['places']}
    for t in net['transitions']:
        for p, _, _ in t['in']:
            at[p][2].append(t['name'])
        for p, _, _ in t['out']:
            at[p][1].append(t['name'])
    return at


def judge_transitions(mon, net, names, log, kind):
    mon.equal(sorted(t['name'] for t in net['transitions']), names, f'{kind}: every class is exactly one transition', log=log)
    for t in net['transitions']:
        mon.equal((t['silent'], t['data']), (False, t['name']), f'{kind}: transitions are visible and carry the name', log=log)
        mon.check(all(x[2] == 1 for x in t['in'] + t['out']), f'{kind}: arcs carry one token', log=log)
    ids = [p[0] for p in net['places']] + [t['id'] for t in net['transitions']] + [x[1] for t in net['transitions'] for x in t['in'] + t['out']]
    mon.equal(len(set(ids)), len(ids), f'{kind}: identifiers are unique', log=log)


def ask(H, log, kind):
    return H.ask('alpha', log=log, kind=kind, replay=False, terminate=False, names=False)['net']


def judge(mon, H, log, kind):
    mon.event(kind)
    net = ask(H, log, kind)
    places, names, n = expected(log, kind, mon)
    judge_transitions(mon, net, names, log, kind)
    at = places_of(net)
    mon.equal(sorted([n, sorted(a), sorted(b)] for n, a, b in at.values()), places,
              f'{kind}: the places are exactly the maximal pairs of sets of classes, the start and the end', log=log)
    for key, name in (('initial', 'StartPlace'), ('final', 'EndPlace')):
        m = net[key]
        mon.check(m is not None and len(m) == 1 and m[0][1] == 1 and at[m[0][0]][0] == name, f'{kind}: the {key} marking is one token at the {name}',
                  log=log, marking=m)
    return n


def make_log(rng):
    al = rng.choice(NAMES)[:rng.randint(1, 7)]
    log = []
    if rng.random() < 0.5:
        # a small process: blocks in order, each a choice, a concurrent block, a loop or a sequence
        blocks, left = [], list(al)
        rng.shuffle(left)
        while left:
            k = min(len(left), rng.randint(1, 3))
            blocks.append((rng.choice(['xor', 'and', 'seq', 'loop1', 'loop2', 'opt']), left[:k]))
            left = left[k:]
        for _ in range(rng.randint(1, 8)):
            t = []
            for how, part in blocks:
                if how == 'xor':
                    t.append(rng.choice(part))
                elif how == 'and':
                    t += rng.sample(part, len(part))
                elif how == 'loop1':
                    t += [part[0]] * rng.randint(0, 3) + part[1:]
                elif how == 'loop2':
                    t += part * rng.randint(1, 3)
                elif how == 'opt':
                    t += part if rng.random() < 0.6 else []
                else:
                    t += part
            log.append(t)
    else:
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            log.append([rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7]))])
    if log and rng.random() < 0.3:
        log.append(list(rng.choice(log)))
    for _ in range(rng.choice([0, 0, 1])):
        t = rng.choice(log) if log else None
        if t:
            t.insert(rng.randrange(len(t) + 1), rng.choice(al))
    return log


def make_far_log(rng):
    """What is chosen early decides what happens later, with other parts between."""
    al = list(rng.choice(NAMES))
    rng.shuffle(al)
    k = rng.choice([2, 2, 3])
    early, late, rest = al[:k], al[k:2 * k], al[2 * k:]
    cut = rng.randint(0, len(rest))
    if rng.random() < 0.25:
        late[rng.randrange(k)] = late[0]
    before, middle = ([], rest) if rng.random() < 0.6 else (rest[cut:], rest[:cut])
    how = rng.choice(['seq', 'and', 'xor', 'loop', 'beside', 'opt', 'twice'])
    log = []
    for _ in range(rng.randint(2, 8)):
        i = rng.randrange(k)
        m = list(middle)
        if how == 'and':
            rng.shuffle(m)
        elif how == 'xor' and m:
            m = [rng.choice(m)]
        elif how == 'loop' and m:
            m = m[:1] * rng.randint(1, 3) + m[1:]
        elif how == 'opt' and m:
            m = m[:-1] + m[-1:] * rng.randint(0, 1)
        elif how == 'twice':
            m = m * rng.randint(1, 2)
        t = before + [early[i]] + m + [late[i]]
        if how == 'beside' and len(t) > 2:
            x = t.pop(rng.randrange(len(t)))
            t.insert(rng.randint(0, len(t)), x)
        if rng.random() < 0.15:
            t = t + t[len(before):]
        log.append(t)
    if rng.random() < 0.3:
        log.append([rng.choice(al) for _ in range(rng.randint(1, 4))])
    return log


def nfc(mon, H, log, rng):
    mon.event('nfc')
    net = ask(H, log, 'nfc')
    names = sorted({e for t in log for e in t})
    judge_transitions(mon, net, names, log, 'nfc')
    got = sorted((n, sorted(a), sorted(b)) for n, a, b in places_of(net).values())
    for n, a, b in got:
        mon.event('nfc place')
        mon.equal(n, show(a, b), 'nfc: a place connects the classes it is named after', log=log)
    mon.equal(len({(tuple(a), tuple(b)) for _, a, b in got}), len(got), 'nfc: no place is there twice', log=log, places=got)
    ref = Nfc(log).mine()
    for key in ('w1', 'w2', 'w3', 'triples'):
        mon.event(f'nfc {key}', len(ref[key]))
    late = Nfc(log, early=False).mine()
    if late['places'] == ref['places']:
        mon.event('nfc compared')
        mon.equal([(a, b) for _, a, b in sorted(got, key=lambda x: x[1:])], sorted((sorted(a), sorted(b)) for a, b in ref['places']),
                  'nfc: the places are those of the alpha algorithm, of implicit dependencies and of one-length loops', log=log,
                  relations={k: sorted(map(str, ref[k])) for k in ('w1', 'w2', 'w3')})
    else:
        mon.event('nfc left open')
    other = list(range(len(names)))
    rng.shuffle(other)
    code = {x: f'c{k}' for x, k in zip(names, other)}
    again = ask(H, [[code[e] for e in t] for t in rng.sample(log, len(log))] + ([[code[e] for e in log[0]]] if log else []), 'nfc')
    exp = sorted((sorted(code[x] for x in a), sorted(code[x] for x in b)) for _, a, b in got)
    mon.equal(sorted((sorted(a), sorted(b)) for _, a, b in places_of(again).values()), exp,
              'nfc: the net depends neither on the names nor on the order and number of equal traces', log=log, code=code)


FRESH = False
# places which differ only in the side, or in where names end, at which something was added
DIRECTED = [[['l', 'e', 'q', 'l', 'q', 'l', 'e'], ['q', 'q', 'l', 'x', 'l', 'q', 'q'], ['e', 'l', 'e', 'q', 'e'], ['x', 'l', 'q']],
            [['a', 'x', 'x', 'bc'], ['ab', 'x', 'x', 'c'], ['a', 'c'], ['c', 'a'], ['ab', 'bc'], ['bc', 'ab']]]


def run_case(rng, index, mon):
    global FRESH
    H = rust.H
    if H is not FRESH:
        # the first request of a process: nothing may depend on what was asked before
        FRESH = H
        mon.event('first request')
        judge(mon, H, rng.choice([[['a']], [], [['a', 'a']]]), 'plusplus')
        for log in DIRECTED:
            mon.event('nfc directed')
            nfc(mon, H, log, rng)
    step = index % 4
    log = make_far_log(rng) if step == 3 and rng.random() < 0.7 else make_log(rng)
    if not log:
        mon.event('empty log')
    mon.event('empty trace', sum(not t for t in log))
    mon.event('short trace', sum(0 < len(t) < 3 for t in log))
    if step == 3:
        nfc(mon, H, log, rng)
        mon.distinct('nfc', log)
    else:
        n = judge(mon, H, log, ('alpha', 'plus', 'plusplus')[step])
        if n:
            mon.distinct(step > 0, log)
    mon.sample({'log': log})

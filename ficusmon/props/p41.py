"""P41: Petri nets of the backend: structure, replay, annotations, PNML (Rust)."""
import xml.etree.ElementTree as ET
from collections import Counter

from .. import rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401
from .p40 import make_log

ID = 'P41'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('hand-made random nets (silent transitions with cycles, several arcs between the same nodes, equal names, sources and sinks, several tokens, '
        'no marking) with logs that are runs of the net or near to one, and nets mined by the alpha miners with their log; structure, replay, '
        'annotations and PNML text of the real Rust code are compared with a breadth-first token game; non-trivial: a trace of at least two events')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (XML: a writer that escapes as quick-xml does)',
               'silent transitions produce at most as many tokens as they take, so that the token game of a trace is finite']
REQUIRED_EVENTS = ['net', 'replayed', 'not replayable', 'silent fired', 'silent cycle', 'double arc', 'equal names', 'no marking', 'ensured marking',
                   'deterministic counts', 'terminated', 'frequencies', 'pnml', 'pnml names', 'mined net', 'deleted', 'empty trace', 'several tokens',
                   'blocked by tokens']
LABELS = ['a', 'b', 'c', 'd', '<&>', 'x y', 'é"\'']


def replays(net, initial, trace, limit=200000):
    """Is there a firing sequence whose visible names are the trace?"""
    start = (0, tuple(sorted((p, n) for p, n in initial.items() if n)))
    todo, seen = [start], {start}
    while todo:
        i, m = todo.pop()
        if i == len(trace):
            return True
        marks = dict(m)
        for t in net['transitions']:
            if not t['silent'] and t['name'] != trace[i]:
                continue
            nxt = fire(t, marks)
            if nxt is None:
                continue
            s = (i + (not t['silent']), tuple(sorted(nxt.items())))
            if s not in seen:
                seen.add(s)
                todo.append(s)
                if len(seen) > limit:
                    return None
    return False


def fire(t, marks):
    need = Counter()
    for p, _, n in t['in']:
        need[p] += n
    if any(marks.get(p, 0) < n for p, n in need.items()):
        return None
    m = Counter(marks)
    m.subtract(need)
    for p, _, n in t['out']:
        m[p] += n
    return {p: n for p, n in m.items() if n}


def judge_replay(mon, net, log, out, terminate, what, eps=1e-9):
    fired = out['fired']
    byid = {t['id']: t for t in net['transitions']}
    if net['initial'] is None and log:
        mon.event('no marking')
        mon.equal([out[k] for k in ('fired', 'counts', 'freq', 'trace_freq')], [None] * 4, f'{what}: without a marking nothing is replayed')
        return
    initial = dict((p, n) for p, n in net['initial'] or [])
    mon.equal(len(fired), len(log), f'{what}: one result per trace', log=log)
    total, none = Counter(), False
    for t, f in zip(log, fired):
        mon.event('empty trace', not t)
        if f is None:
            none = True
            mon.event('not replayable')
            mon.check(replays(net, initial, t) is not True, f'{what}: a trace that the net can replay is reported as not replayable', trace=t, net=net)
            continue
        m, names = {p: n for p, n in initial.items() if n}, []
        for i in f:
            tr = byid[i]
            m = fire(tr, m)
            mon.check(m is not None, f'{what}: a transition is fired that is not enabled', trace=t, fired=[byid[x]['name'] for x in f], net=net)
            if tr['silent']:
                mon.event('silent fired')
            else:
                names.append(tr['name'])
            total[i] += 1
        mon.event('replayed')
        mon.equal(names, t, f'{what}: the visible transitions fired are exactly the events of the trace', net=net)
    if terminate and none:
        mon.event('terminated')
        mon.equal([out[k] for k in ('counts', 'freq', 'trace_freq')], [None] * 3, f'{what}: no annotation when a trace cannot be replayed and that was asked for')
        return
    counts = {a: c for a, c in out['counts']}
    arcs = {t['id']: [x[1] for x in t['in'] + t['out']] for t in net['transitions']}
    names = Counter(t['name'] for t in net['transitions'])
    mon.check(all(c > 0 for c in counts.values()) and set(counts) <= {a for v in arcs.values() for a in v}, f'{what}: only fired arcs of the net are annotated',
              counts=counts)
    if all(c == 1 for c in names.values()) and not any(t['silent'] for t in net['transitions']):
        mon.event('deterministic counts')
        mon.equal(counts, {a: total[t] for t, v in arcs.items() for a in v if total[t]}, f'{what}: an arc is counted once per firing of its transition',
                  log=log, net=net)
    visible = Counter()
    for t in net['transitions']:
        per = {counts.get(a, 0) for a in arcs[t['id']]}
        mon.check(len(per) <= 1, f'{what}: all arcs of a transition are used equally often', transition=t, counts=counts)
        if not t['silent']:
            visible[t['name']] += max(per) if per else 0
    done = Counter(e for t, f in zip(log, fired) if f is not None for e in t)
    for n in names:
        if all(arcs[t['id']] for t in net['transitions'] if t['name'] == n and not t['silent']):
            mon.equal(visible[n], done[n], f'{what}: the annotations account for every replayed event', name=n, log=log, counts=counts)
    s = sum(counts.values())
    mon.event('frequencies')
    for key, div in (('freq', s), ('trace_freq', len(log))):
        got = dict((a, c) for a, c in out[key])
        mon.check(set(got) == set(counts) and all(abs(got[a] - counts[a] / div) < eps for a in got), f'{what}: {key} are the counts divided by the total',
                  values=got, counts=counts, total=div)


def judge_pnml(mon, net, text, by_name, what):
    mon.event('pnml')
    mon.event('pnml names', by_name)
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        mon.check(False, f'{what}: the PNML text is not XML', text=text, error=str(e))
    pid = {p[0]: (p[1] if by_name else str(p[0])) for p in net['places']}
    tid = {t['id']: (t['name'] if by_name else str(t['id'])) for t in net['transitions']}
    mon.equal(sorted(x.get('id') for x in root.iter('place')), sorted(pid.values()), f'{what}: places of the PNML text', text=text)
    mon.equal(sorted((x.get('id'), x.findtext('name/text')) for x in root.iter('transition')), sorted((tid[t['id']], t['data']) for t in net['transitions']),
              f'{what}: transitions of the PNML text', text=text)
    exp = [(pid[p], tid[t['id']]) for t in net['transitions'] for p, _, _ in t['in']]
    exp += [(tid[t['id']], pid[p]) for t in net['transitions'] for p, _, _ in t['out']]
    mon.equal(sorted((x.get('source'), x.get('target')) for x in root.iter('arc')), sorted(exp), f'{what}: arcs of the PNML text', text=text)
    if not by_name:
        mon.equal(sorted(x.get('id') for x in root.iter('arc')), sorted(str(x[1]) for t in net['transitions'] for x in t['in'] + t['out']),
                  f'{what}: identifiers of the arcs', text=text)


def make_net(rng, mon):
    n = rng.randint(1, 6)
    places = [f'p{i}' for i in range(n)]
    unique = rng.random() < 0.5
    ts, labels = [], list(LABELS)
    rng.shuffle(labels)
    for i in range(rng.randint(1, 6)):
        silent = rng.random() < 0.3 and not (unique and rng.random() < 0.5)
        ins = [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2, 2]))]
        outs = [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        if silent:
            ins = ins or [rng.randrange(n)]
            outs = outs[:len(ins)]
            if outs and len(outs) == len(ins) and rng.random() < 0.4:
                ts.append([f's{len(ts)}', True, outs, ins])
                mon.event('silent cycle')
        if len(set(ins)) < len(ins):
            mon.event('double arc')
        name = labels[i] if unique else rng.choice(LABELS[:4])
        if silent and rng.random() < 0.5:
            name = f's{len(ts)}'
        ts.append([name, silent, ins, outs])
    if max(Counter(t[0] for t in ts).values()) > 1:
        mon.event('equal names')
    return places, ts


def walk(rng, ts, marks, n):
    """A run of the net, possibly with a slip."""
    m, out = Counter(marks), []
    for _ in range(n * 2):
        ok = [t for t in ts if not Counter(t[2]) - +m]
        if not ok or len(out) >= n:
            break
        t = rng.choice(ok)
        m = m - Counter(t[2]) + Counter(t[3])
        if not t[1]:
            out.append(t[0])
    if out and rng.random() < 0.3:
        i = rng.randrange(len(out))
        out[i] = rng.choice(LABELS[:4])
    elif rng.random() < 0.1:
        out.append(rng.choice(LABELS[:4]))
    return out


def hand_made(mon, H, rng):
    places, ts = make_net(rng, mon)
    marks = {p: rng.choice([1, 1, 1, 2, 3]) for p in rng.sample(range(len(places)), rng.randint(1, min(3, len(places))))}
    if max(marks.values()) > 1:
        mon.event('several tokens')
    log = [walk(rng, ts, marks, rng.randint(0, 7)) for _ in range(rng.randint(0, 4))]
    mode = rng.choice(['marking'] * 5 + ['ensure', 'ensure', 'none'])
    marking = [[p, c] for p, c in marks.items()]
    if mode == 'ensure':
        marking = None
    if mode == 'none':
        marking = None
    delete = rng.randrange(len(ts)) if rng.random() < 0.1 else None
    terminate, names = rng.random() < 0.4, rng.random() < 0.5
    out = H.ask('net', places=places, transitions=ts, marking=marking, ensure=mode == 'ensure', log=log, terminate=terminate, names=names, delete=delete)
    net = out['net']
    mon.event('net')
    pid, ids = out['places'], out['ids']
    mon.equal(len(set(pid + ids)), len(pid) + len(ids), 'nodes have identifiers of their own')
    byid = {t['id']: t for t in net['transitions']}
    extra = [p for p in net['places'] if p[0] not in pid]
    if mode != 'ensure':
        mon.equal(extra, [], 'no place appears')
    mon.equal(sorted(p[1] for p in net['places'] if p[0] in pid), sorted(places), 'places are kept')
    gone = ids[delete] if delete is not None else None
    mon.equal(sorted(byid), sorted(i for i in ids if i != gone), 'exactly the deleted transition is gone')
    if delete is not None:
        mon.event('deleted')
        mon.equal(out['deleted'], gone, 'the deleted transition is returned')
    arcs = [x[1] for t in net['transitions'] for x in t['in'] + t['out']]
    mon.equal(len(set(arcs)), len(arcs), 'arcs have identifiers of their own')
    added = {'in': {}, 'out': {}}
    for i, t in zip(ids, ts):
        if i == gone:
            continue
        g = byid[i]
        mon.equal((g['name'], g['silent'], g['data']), (t[0], t[1], t[0]), 'a transition keeps its name and kind')
        for key, k in (('in', 2), ('out', 3)):
            got = [x[0] for x in g[key]]
            mine = [p for p in got if p in pid]
            mon.equal(mine, [pid[p] for p in t[k]], 'a transition has exactly the arcs it was given', net=ts)
            for p in got:
                if p not in pid:
                    added[key].setdefault(p, []).append(t[0])
            mon.check(all(x[2] == 1 for x in g[key]), 'arcs carry one token')
    for i, ins, outs in out['ends']:
        mon.equal(sorted(x for x in ins if x in ids), sorted(ids[k] for k, t in enumerate(ts) for p in t[3] if p == i), 'transitions into a place', place=i, net=ts)
        mon.equal(sorted(x for x in outs if x in ids), sorted(ids[k] for k, t in enumerate(ts) for p in t[2] if p == i), 'transitions out of a place', place=i, net=ts)
    if mode == 'ensure':
        mon.event('ensured marking')
        mon.equal(sorted(p[1] for p in extra), ['End', 'Start'], 'a start and an end place are added')
        by = {p[1]: p[0] for p in extra}
        have = {t[0] for k, t in enumerate(ts)} - ({ts[delete][0]} if delete is not None else set())
        mon.equal(sorted(added['in'].get(by['Start'], [])), sorted({t[0] for t in log if t} & have) if delete is None else sorted(added['in'].get(by['Start'], [])),
                  'the start place leads to the transitions of the first events', log=log, net=ts)
        mon.equal(sorted(added['out'].get(by['End'], [])), sorted({t[-1] for t in log if t} & have) if delete is None else sorted(added['out'].get(by['End'], [])),
                  'the transitions of the last events lead to the end place', log=log, net=ts)
        mon.equal(net['initial'], [[by['Start'], 1]], 'the initial marking is one token at the start')
    elif mode == 'marking':
        mon.equal(net['initial'], [[pid[p], c] for p, c in marking], 'the marking is kept')
        if any(Counter(t[2]) - Counter(marks) and all(p in marks for p in t[2]) for t in ts):
            mon.event('blocked by tokens')
    else:
        mon.equal(net['initial'], None, 'no marking')
    if delete is None:
        judge_replay(mon, net, log, out['replay'], terminate, 'hand-made net')
    judge_pnml(mon, net, out['pnml'], names, 'hand-made net')
    if any(len(t) > 1 for t in log):
        mon.distinct(ts, marking, log)
    mon.sample({'net': ts, 'log': log})


def mined(mon, H, rng):
    log = make_log(rng)
    kind = rng.choice(['alpha', 'plus', 'plusplus', 'nfc'])
    terminate, names = rng.random() < 0.4, rng.random() < 0.5
    out = H.ask('alpha', log=log, kind=kind, replay=True, terminate=terminate, names=names)
    mon.event('mined net')
    judge_replay(mon, out['net'], log, out['replay'], terminate, kind, getattr(H, 'eps', 1e-9))
    judge_pnml(mon, out['net'], out['pnml'], names, kind)
    if any(len(t) > 1 for t in log):
        mon.distinct(kind, log)


def run_case(rng, index, mon):
    if index % 3:
        hand_made(mon, rust.H, rng)
    else:
        mined(mon, rust.H, rng)

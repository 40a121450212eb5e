"""P03: copies of logs, traces and events are faithful and independent; equality and hash follow content."""
import copy

from .. import gen, fx
from ..gen import NAME
from python.ficus.legacy.log.event_log import MyEvent, MyTrace, MyEventLog

ID = 'P03'
LEVEL = 'exploration'
CASES = {'quick': 1600, 'thorough': 30000}
RULE = ('random logs with typed payloads and metadata are copied shallowly and deeply, then original and copy are mutated '
        'independently; equality/hash are compared with a structural oracle for rebuilt, permuted and minimally perturbed '
        'logs (incl. short colliding-looking names); container operations are replayed against plain lists/dicts')
ASSUMPTIONS = ['values are plain data: their text form is determined by their content',
               'values that print identically (1 and "1") count as equal content, as the library defines it',
               'a log whose only trace is empty is not compared with a log without traces',
               'dictionary valued metadata keeps its key order when rebuilt']
REQUIRED_EVENTS = ['shallow copy', 'deep copy', 'equal:rebuilt', 'unequal:perturbed', 'independence checked',
                   'container op', 'payload reordered', 'nested value', 'pairwise names', 'long trace', 'long text']


def meta(rng, log):
    if rng.random() < 0.6:
        log.attributes = {k: rng.choice(['1.0', 'x', '']) for k in rng.sample(['v', 'w', 'xes.version'], rng.randint(0, 3))}
    if rng.random() < 0.6:
        log.properties = {k: gen.value(rng) for k in rng.sample(gen.KEYS, rng.randint(0, 3))}
    if rng.random() < 0.6:
        log.classifiers = {k: rng.sample(['a', 'b', 'c'], rng.randint(1, 3)) for k in rng.sample(['C1', 'C2'], rng.randint(0, 2))}
    if rng.random() < 0.6:
        log.extensions = {k: {'prefix': k.lower(), 'uri': 'u'} for k in rng.sample(['E1', 'E2'], rng.randint(0, 2))}
    if rng.random() < 0.6:
        log.global_values = {s: {k: gen.value(rng) for k in rng.sample(gen.KEYS, 2)} for s in rng.sample(['trace', 'event'], rng.randint(0, 2))}
    for t in log:
        if rng.random() < 0.5:
            t.attributes = {k: rng.choice([gen.value(rng), ['list', 1], {'d': [1]}]) for k in rng.sample(gen.KEYS, 2)}


def text_payload(e):
    return frozenset((str(k), str(v)) for k, v in e.payload.items())


def text_log(log):
    return ([[text_payload(e) for e in t] for t in log],
            *[{str(k): str(v) for k, v in d.items()} for d in (log.attributes, log.extensions, log.classifiers, log.properties)])


def rebuild(log, rng):
    out = MyEventLog()
    for t in log:
        nt = MyTrace()
        for e in t:
            items = list(e.payload.items())
            rng.shuffle(items)
            nt.append(MyEvent(dict(items)))
        out.append(nt)
    for a in ('attributes', 'extensions', 'classifiers', 'properties'):
        items = list(getattr(log, a).items())
        rng.shuffle(items)
        setattr(out, a, dict(items))
    return out


def perturb(rng, log):
    """Returns a description; changes the (deep) content of log in one small way."""
    tr = [i for i, t in enumerate(log) if len(t)]
    ops = ['attr', 'prop', 'addtrace', 'cls', 'ext']
    if tr:
        ops += ['rename'] * 3 + ['drop', 'dup', 'swap', 'addkey', 'delkey', 'move', 'split', 'swapval']
    if len(log) > 1:
        ops += ['swaptraces', 'droptrace', 'merge']
    op = rng.choice(ops)
    if op == 'attr':
        log.attributes['zz'] = '1'
    elif op == 'prop':
        log.properties['zz'] = 1
    elif op == 'cls':
        log.classifiers['zz'] = ['a']
    elif op == 'ext':
        log.extensions['zz'] = {'prefix': 'p'}
    elif op == 'addtrace':
        log.append(MyTrace([MyEvent({NAME: 'zz'})]))
    elif op == 'swaptraces':
        i, j = rng.sample(range(len(log)), 2)
        log[i], log[j] = log[j], log[i]
    elif op == 'droptrace':
        del log[rng.randrange(len(log))]
    elif op == 'merge':
        i = rng.randrange(len(log) - 1)
        for e in log[i + 1]:
            log[i].append(e)
        del log[i + 1]
    else:
        t = log[rng.choice(tr)]
        k = rng.randrange(len(t))
        e = t[k]
        if op == 'rename':
            n = str(e.payload.get(NAME, ''))
            e[NAME] = rng.choice([n + 'a', n[1:], n[:-1] + chr(ord(n[-1]) + 1) if n else 'q', n[::-1], n + '\0', n.upper(),
                                  'Aa', 'BB', 'Cb', 'ba'])
        elif op == 'drop':
            del t[k]
        elif op == 'dup':
            t.insert(MyEvent(dict(e.payload)), k)
        elif op == 'swap':
            j = rng.randrange(len(t))
            t[k], t[j] = t[j], t[k]
        elif op == 'addkey':
            e['zzk'] = 'x'
        elif op == 'delkey':
            key = rng.choice(list(e.payload))
            del e[key]
        elif op == 'swapval':
            ks = list(e.payload)
            if len(ks) > 1:
                a, b = rng.sample(ks, 2)
                e[a], e[b] = e[b], e[a]
        elif op == 'move':
            del t[k]
            log[rng.randrange(len(log))].insert(e, 0)
        elif op == 'split':
            nt = MyTrace(list(t)[k:])
            for _ in range(len(t) - k):
                del t[len(t) - 1]
            log.append(nt)
    return op


def degenerate(log):
    return len(log) == 0 or (len(log) == 1 and len(log[0]) == 0)


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=5, max_len=6, big=0.02)
    log = fx.log_of_payloads(gen.payload_log(rng, names, rich=rng.random() < 0.7))
    meta(rng, log)
    for t in log:
        for e in t:
            if rng.random() < 0.1:
                e['nested'] = rng.choice([[1, [2]], {'a': [1]}, [{'n': [3]}]])
                mon.event('nested value')
    snap = fx.snapshot(log)
    if names and any(names):
        mon.distinct(snap)
        mon.sample(names)

    # faithful copies
    deep = mon.call(copy.deepcopy, log, what='deepcopy(log)')
    shallow = mon.call(copy.copy, log, what='copy(log)')
    mon.event('shallow copy')
    mon.event('deep copy')
    mon.equal(fx.snapshot(deep), snap, 'a deep copy differs from the log')
    mon.equal(fx.snapshot(shallow), snap, 'a shallow copy differs from the log')
    mon.equal(fx.snapshot(log), snap, 'copying changed the log')
    mon.check(deep == log and hash(deep) == hash(log), 'a deep copy is not equal to the log')
    mon.check(shallow == log, 'a shallow copy is not equal to the log')
    for t in log:
        for c, kind in ((copy.copy(t), 'shallow'), (copy.deepcopy(t), 'deep')):
            mon.equal(fx.snapshot(MyEventLog([c])), fx.snapshot(MyEventLog([t])), f'a {kind} copy of a trace differs')
            mon.check(c == t and hash(c) == hash(t), f'a {kind} copy of a trace is not equal to it')
        for e in t:
            c, d = copy.copy(e), copy.deepcopy(e)
            mon.check(c == e and d == e and hash(c) == hash(e) and list(c.payload) == list(e.payload),
                      'a copy of an event differs', event=e.payload)

    mon.equal(fx.shared(deep, log), [], 'a deep copy of a log shares mutable data with it')
    for t in log:
        mon.equal(fx.shared(copy.deepcopy(t), t), [], 'a deep copy of a trace shares mutable data with it')
        for e in t:
            mon.equal(fx.shared(copy.deepcopy(e), e), [], 'a deep copy of an event shares mutable data with it')
    # equality follows content
    other = rebuild(log, rng)
    mon.event('payload reordered')
    mon.event('equal:rebuilt')
    mon.check(other == log and hash(other) == hash(log), 'logs with the same content are not equal', names=names)
    for t1, t2 in zip(log, other):
        mon.check(t1 == t2 and hash(t1) == hash(t2), 'traces with the same events are not equal')
    for _ in range(3):
        p = copy.deepcopy(log)
        op = perturb(rng, p)
        if degenerate(p) or degenerate(log):
            continue
        want = text_log(p) == text_log(log)
        mon.event('equal:perturbed' if want else 'unequal:perturbed')
        mon.check((p == log) == want, 'equality of logs does not follow their content', op=op, a=fx.payloads(log), b=fx.payloads(p))
        mon.check((p != log) == (not want), 'inequality of logs does not follow their content', op=op)
        if want:
            mon.check(hash(p) == hash(log), 'equal logs hash differently')
    evs = [e for t in log for e in t][:8]
    for a in evs:
        for b in evs:
            want = text_payload(a) == text_payload(b)
            mon.check((a == b) == want, 'equality of events does not follow their content', a=a.payload, b=b.payload)
    if len(log):
        ts = list(log)[:6]
        for a in ts:
            for b in ts:
                want = list(map(text_payload, a)) == list(map(text_payload, b))
                mon.check((a == b) == want, 'equality of traces does not follow their events', a=[e.payload for e in a], b=[e.payload for e in b])
    # long traces and logs that differ in two late places only
    size = rng.choice([30, 70, 130, 300])
    long = [str(i) if rng.random() < 0.7 else rng.choice('ab') for i in range(size)]
    for _ in range(2):
        i, j = sorted(rng.sample(range(size), 2))
        if rng.random() < 0.5:
            j = size - 1 - rng.randrange(min(10, size - 1))
        other_long = list(long)
        if rng.random() < 0.7:
            other_long[i], other_long[j] = other_long[j], other_long[i]
        else:
            other_long[j] = 'zz'
        mon.event('long trace')
        want = long == other_long
        a, b = ([MyEvent({NAME: x}) for x in y] for y in (long, other_long))
        mon.check((MyTrace(a) == MyTrace(b)) == want, 'equality of long traces does not follow their events', i=i, j=j, size=size)
        a, b = (MyEventLog([MyTrace([x]) for x in y]) for y in (a, b))
        mon.check((a == b) == want, 'equality of logs with many traces does not follow their content', i=i, j=j, size=size)
    # one and two letter names: distinct names never compare equal
    pool = [chr(rng.choice([rng.randint(32, 126), rng.randint(0x400, 0x44f)])) + rng.choice(['', chr(rng.randint(32, 126))]) for _ in range(12)]
    for a in pool:
        for b in pool:
            mon.event('pairwise names')
            mon.check((MyEvent({NAME: a}) == MyEvent({NAME: b})) == (a == b), 'equality of events does not follow their names', a=a, b=b)

    # texts that differ in one late place only: names, values and keys
    size = rng.choice([9, 17, 33, 65, 129, 257, 600, 1500])
    text = ''.join(rng.choice('ab c') for _ in range(size))
    i = size - 1 - (rng.randrange(min(5, size)) if rng.random() < 0.7 else rng.randrange(size))
    other = text[:i] + rng.choice(['x', 'b', '']) + text[i + 1:]
    for a, b in ((text, other), (text, text + rng.choice(['', 'a'])), (text, str(text))):
        mon.event('long text')
        want = a == b
        mon.check((MyEvent({NAME: a}) == MyEvent({NAME: b})) == want, 'equality of events does not follow long names', size=size, place=i)
        mon.check((MyEvent({NAME: 'n', 'k': a}) == MyEvent({NAME: 'n', 'k': b})) == want, 'equality of events does not follow long values', size=size, place=i)
        mon.check((MyEvent({NAME: 'n', a: 'v'}) == MyEvent({NAME: 'n', b: 'v'})) == want, 'equality of events does not follow long keys', size=size, place=i)
        mon.check((MyTrace([MyEvent({NAME: a})]) == MyTrace([MyEvent({NAME: b})])) == want, 'equality of traces does not follow long names', size=size, place=i)

    # independence: change everything reachable from the copy, then everything in the original
    which = rng.random() < 0.5
    victim, witness = (deep, log) if which else (log, deep)
    for t in victim:
        for e in t:
            if 'nested' in e.payload:
                v = e['nested']
                if isinstance(v, list):
                    v.append(99)
                else:
                    v['q'] = 1
            e[NAME] = 'changed'
            e['added'] = 1
            for k in [k for k in e.payload if k != NAME][:1]:
                del e[k]
        t.append(MyEvent({NAME: 'new'}))
        for k, v in list(t.attributes.items()):
            if isinstance(v, list):
                v.append(2)
            elif isinstance(v, dict):
                v['d'].append(3)
        t.attributes['added'] = 1
    victim.append(MyTrace())
    for m in (victim.attributes, victim.extensions, victim.classifiers, victim.properties, victim.global_values):
        for v in list(m.values()):
            if isinstance(v, dict):
                v['added'] = 1
            elif isinstance(v, list):
                v.append('added')
        m['added'] = 'x'
    mon.event('independence checked')
    mon.equal(fx.snapshot(witness), snap, 'changing a log changed its deep copy or the other way round', changed_copy=which)

    # shallow copies: structure is independent
    log2 = fx.log_of_names(names)
    meta(rng, log2)
    s2 = fx.snapshot(log2)
    c2 = copy.copy(log2)
    c2.append(MyTrace())
    if len(c2) > 1:
        del c2[0]
    for m in (c2.attributes, c2.extensions, c2.classifiers, c2.properties, c2.global_values):
        m['added'] = {'x': 1}
    mon.equal(fx.snapshot(log2), s2, 'changing the structure of a shallow copy changed the log')
    for t in log2:
        ct = copy.copy(t)
        ct.append(MyEvent({NAME: 'n'}))
        del ct[0]
        ct.attributes['added'] = 1
        for e in t:
            ce = copy.copy(e)
            ce['added'] = 1
            ce[NAME] = 'n'
    mon.equal(fx.snapshot(log2), s2, 'changing a shallow copy of a trace or event changed the original')

    # container operations against plain python containers
    tr, model = MyTrace(), []
    lg, lmodel = MyEventLog(), []
    for step in range(12):
        mon.event('container op')
        op = rng.randrange(5)
        e = MyEvent({NAME: str(step)})
        if op < 2:
            tr.append(e)
            model.append(e)
        elif op == 2:
            i = rng.randint(0, len(model))
            tr.insert(e, i)
            model.insert(i, e)
        elif op == 3 and model:
            i = rng.randrange(-len(model), len(model))
            del tr[i]
            del model[i]
        elif op == 4 and model:
            i = rng.randrange(len(model))
            tr[i] = e
            model[i] = e
        if rng.random() < 0.5:
            t = MyTrace([e])
            lg.append(t)
            lmodel.append(t)
        elif lmodel and rng.random() < 0.5:
            i = rng.randrange(len(lmodel))
            del lg[i]
            del lmodel[i]
        mon.check(len(tr) == len(model) and all(a is b for a, b in zip(tr, model)) and all(
            tr[i] is model[i] for i in range(len(model))), 'a trace does not hold the events put into it')
        mon.check(len(lg) == len(lmodel) and all(a is b for a, b in zip(lg, lmodel)), 'a log does not hold the traces put into it')
    ev, dm = MyEvent(), {}
    for step in range(10):
        k = rng.choice(gen.KEYS)
        if rng.random() < 0.7 or k not in dm:
            v = gen.value(rng)
            ev[k] = v
            dm[k] = v
        else:
            del ev[k]
            del dm[k]
        mon.check(len(ev) == len(dm) and list(ev) == list(dm) and ev.payload_items() == list(dm.items())
                  and all(ev[x] is dm[x] for x in dm) and all((x in ev) == (x in dm) for x in gen.KEYS),
                  'an event does not hold the values put into it')

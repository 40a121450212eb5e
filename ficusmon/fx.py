"""Access to the code under test, and conversion between it and plain data."""
from python.ficus.legacy.log.event_log import MyEvent, MyTrace, MyEventLog

NAME = 'concept:name'


def ev(payload):
    return MyEvent(dict(payload))


def log_of_payloads(pl, uid=False):
    log = MyEventLog()
    n = 0
    for t in pl:
        tr = MyTrace()
        for p in t:
            e = MyEvent(dict(p))
            if uid:
                e['uid'] = n
                n += 1
            tr.append(e)
        log.append(tr)
    return log


def log_of_names(names, uid=False):
    return log_of_payloads([[{NAME: n} for n in t] for t in names], uid)


def names(log):
    return [[e[NAME] for e in t] for t in log]


def payloads(log):
    return [[dict(e.payload) for e in t] for t in log]


def snapshot(log):
    """Deep, typed, order preserving picture of a log (used to detect in-place changes)."""
    def val(v):
        if isinstance(v, MyEvent):
            return ('E', tuple((k, val(x)) for k, x in v.payload.items()))
        if isinstance(v, (list, tuple)):
            return ('L', tuple(map(val, v)))
        if isinstance(v, dict):
            return ('D', tuple((k, val(x)) for k, x in v.items()))
        if isinstance(v, MyTrace):
            return ('T', tuple(map(val, v)))
        return (type(v).__name__, repr(v))

    return (tuple((tuple(tuple((k, val(v)) for k, v in e.payload.items()) for e in t), val(t.attributes)) for t in log),
            val(log.attributes), val(log.extensions), val(log.classifiers), val(log.properties), val(log.global_values))


def idents(log):
    """Identity of every event object, in order."""
    return [[id(e) for e in t] for t in log]


def mutables(obj):
    """{id: description} of every mutable object reachable from obj (containers and instances, not classes or functions)."""
    seen, todo, keep = {}, [(obj, '')], []
    while todo:
        o, where = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, bool, complex, type)) or callable(o):
            continue
        if isinstance(o, dict):
            seen[id(o)] = f'dict {where}'
            todo += [(k, where + '/key') for k in o] + [(v, f'{where}[{k!r}]') for k, v in o.items()]
        elif isinstance(o, (list, set)):
            seen[id(o)] = f'{type(o).__name__} {where}'
            todo += [(v, f'{where}[{i}]') for i, v in enumerate(o)]
        elif isinstance(o, (tuple, frozenset)):
            todo += [(v, f'{where}[{i}]') for i, v in enumerate(o)]
        elif isinstance(o, bytearray):
            seen[id(o)] = f'bytearray {where}'
        elif hasattr(o, '__dict__') and type(o).__module__.split('.')[0] not in ('datetime', 'dateutil', 'decimal', 'uuid', 'enum', 'zoneinfo'):
            seen[id(o)] = f'{type(o).__name__} {where}'
            todo += [(v, f'{where}.{k}') for k, v in vars(o).items()]
    return seen


def shared(a, b):
    """Mutable objects reachable from both."""
    ma, mb = mutables(a), mutables(b)
    return [(ma[i], mb[i]) for i in ma if i in mb]


def edit(rng, log):
    """Changes a log in place: the same objects, other content."""
    known = sorted({e[NAME] for t in log for e in t}) or ['a']
    for _ in range(rng.choice([1, 1, 2, 4])):
        ts = [t for t in log if len(t)]
        if not ts:
            log.append(MyTrace([ev({NAME: 'a', 'uid': 10 ** 6})]))
            continue
        t = rng.choice(ts)
        i = rng.randrange(len(t))
        r = rng.random()
        if r < 0.6:
            t[i][NAME] = rng.choice(known + ['fresh'])
        elif r < 0.75:
            t[i], t[-1] = t[-1], t[i]
        elif r < 0.9:
            p = dict(t[i].payload)
            if 'uid' in p:
                p['uid'] = 10 ** 6 + rng.randrange(10 ** 6)
            t.insert(ev(p), rng.randint(0, len(t)))
        elif len(t) > 1:
            del t[i]

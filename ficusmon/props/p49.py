"""P49: logs read, changed and written as XES and BXES by pipelines of the backend (Rust, through the gRPC service)."""
import copy
import datetime
import json
import os
import re
import struct
import uuid
import xml.etree.ElementTree as ET

from .. import gen, service as sv, svcmodel as M
from ..service import Steps, enum, names, prepare, text, u32, worker_end, worker_start  # noqa: F401
from . import p42
from .p42 import NAME, TIME

ID = 'P49'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 60000}
RULE = ('logs from generated XES documents, generated BXES logs and names are read by the real service, changed by up to four parts (filters, artificial events, renaming, nested '
        'pipelines, abstraction), written as XES and BXES, read back in other pipelines and written again; both files are parsed here and compared attribute by attribute with a '
        'model of the log; dates at and beyond the ends of the formats, missing and broken files, missing settings; half of the parts are written by the Python client; '
        'non-trivial: a log of at least two events is written and read back')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins: bxes by one with its model of a log and a file format of its own, so the bytes of a BXES file are not judged',
               'attributes of traces are not kept by the backend']
REQUIRED_EVENTS = ['from XES', 'from BXES', 'from names', 'written as XES', 'written as BXES', 'XES read back', 'BXES read back', 'changed', 'artificial start', 'artificial end', 'abstracted',
                   'kept events of an abstracted log', 'variant of several traces', 'default left out', 'date out of range', 'scope BXES does not have', 'missing file', 'broken file', 'missing setting', 'no such folder',
                   'missing log', 'empty trace', 'renamed', 'nested', 'together', 'written by the client', 'overwritten', 'written over a file of the same length', 'nanoseconds', 'times of names', 'global', 'braf', 'std', 'i32', 'u32', 'u64', 'f32', 'attributes absent']
LOW, HIGH = -2 ** 63 + 10 ** 9, 2 ** 63 - 1
BRAF = ['Unspecified', 'Closed', 'Closed.Cancelled', 'Closed.Cancelled.Aborted', 'Closed.Cancelled.Error', 'Closed.Cancelled.Exited', 'Closed.Cancelled.Obsolete', 'Closed.Cancelled.Terminated',
        'Completed', 'Completed.Failed', 'Completed.Success', 'Open', 'Open.NotRunning', 'Open.NotRunning.Assigned', 'Open.NotRunning.Reserved', 'Open.NotRunning.Suspended.Assigned',
        'Open.NotRunning.Suspended.Reserved', 'Open.Running', 'Open.Running.InProgress', 'Open.Running.Suspended']
STD = {'Unspecified': 'unspecified', 'Assign': 'assign', 'AteAbort': 'ate_abort', 'Autoskip': 'autoskip', 'Complete': 'complete', 'ManualSkip': 'manualskip', 'PiAbort': 'pi_abort',
       'ReAssign': 'reassign', 'Resume': 'resume', 'Schedule': 'schedule', 'Start': 'start', 'Suspend': 'suspend', 'Unknown': 'unknown', 'Withdraw': 'withdraw'}
NAMES_OF = ('ask', 'GetNamesEventLog', {}, ['names_event_log'])


# ---- what files hold: the content of p42 with times in nanoseconds

def nanos(x):
    """Times of a content of p42 in nanoseconds."""
    def value(v):
        return [v[0], v[1] * 10 ** 6] if v[0] == 'date' else list(v)
    return {'extensions': x['extensions'], 'classifiers': x['classifiers'], 'properties': [[k, value(v)] for k, v in x['properties']],
            'globals': {s: {k: value(v) for k, v in d.items()} for s, d in x['globals'].items()},
            'traces': [[{'name': e['name'], 'time': e['time'] * 10 ** 6, 'payload': {k: value(v) for k, v in e['payload']}} for e in t] for t in x['traces']]}


def empty():
    return {'extensions': [], 'classifiers': [], 'properties': [], 'globals': {}, 'traces': []}


STAMP = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)$')


def stamp(s):
    m = STAMP.match(s)
    if not m or not int(m.group(1)):
        return None
    d = datetime.datetime(*map(int, m.groups()[:6])) - datetime.datetime(1970, 1, 1)
    off = 0 if m.group(8) == 'Z' else (int(m.group(8)[1:3]) * 60 + int(m.group(8)[4:])) * (1 if m.group(8)[0] == '+' else -1)
    return (d.days * 86400 + d.seconds - off * 60) * 10 ** 9 + int((m.group(7) or '0').ljust(9, '0'))


def flat(s):
    """White space in attributes is read as blanks by an XML parser."""
    return re.sub(r'[\n\t\r]', ' ', s) if isinstance(s, str) else s


def xes(mon, path):
    with open(path, encoding='utf-8', newline='') as f:
        raw = f.read()
    try:
        root = ET.fromstring(raw)
    except ET.ParseError as e:
        mon.check(False, 'the XES file written is XML', file=raw, error=str(e))
    mon.equal(root.tag, 'log', 'the root of the XES file written', file=raw)

    def value(e):
        v, k = e.get('value'), e.tag
        try:
            v = {'string': lambda: v, 'int': lambda: int(v), 'float': lambda: float(v), 'boolean': lambda: {'true': True, 'false': False}[v], 'date': lambda: stamp(v),
                 'id': lambda: str(uuid.UUID(v))}[k]()
        except (KeyError, ValueError):
            v = None
        mon.check(v is not None, 'every value in the XES file has the form of its type', tag=k, text=e.get('value'), file=raw)
        return [k, v]
    out = empty()
    for e in root:
        if e.tag == 'extension':
            out['extensions'].append([e.get('name'), e.get('prefix'), e.get('uri')])
        elif e.tag == 'classifier':
            out['classifiers'].append([e.get('name'), e.get('keys').split(' ')])
        elif e.tag == 'global':
            mon.check(e.get('scope') not in out['globals'], 'one set of defaults per scope', file=raw)
            out['globals'][e.get('scope')] = {a.get('key'): value(a) for a in e}
        elif e.tag == 'trace':
            mon.check(all(x.tag == 'event' for x in e), 'a trace holds events', file=raw)
            out['traces'].append([])
            for x in e:
                keys = [a.get('key') for a in x]
                mon.equal(len(set(keys)), len(keys), 'every attribute once', file=raw)
                vals = {a.get('key'): value(a) for a in x}
                mon.check(vals.get(NAME, [0])[0] == 'string' and vals.get(TIME, [0])[0] == 'date', 'every event has its name and its time', file=raw)
                out['traces'][-1].append({'name': vals.pop(NAME)[1], 'time': vals.pop(TIME)[1], 'payload': vals})
        else:
            out['properties'].append([e.get('key'), value(e)])
    return filled(out)


def thaw(v):
    """A value of the stand-in of bxes as the value it is in XES."""
    k, s = v
    if k in ('i32', 'i64', 'u32', 'u64'):
        return ['int', int(s)]
    if k == 't':
        return ['date', int(s)]
    if k in ('f32', 'f64'):
        return ['float', struct.unpack('<f' if k == 'f32' else '<d', int(s).to_bytes(4 if k == 'f32' else 8, 'little'))[0]]
    if k == 'b':
        return ['boolean', s == 'true']
    if k == 'g':
        return ['id', str(uuid.UUID(s))]
    if k == 'braf':
        return ['string', {b.replace('.', ''): b for b in BRAF}[s]]
    return ['string', STD[s] if k == 'std' else s]


def bxes_content(log):
    """What a log of the stand-in holds, defaults filled in; the order of attributes is not compared."""
    pairs = lambda ps: {k[1]: thaw(v) for k, v in ps}
    out = {'extensions': [[x[1] for x in e] for e in log['extensions'] or []], 'classifiers': [[c[0][1], [k[1] for k in c[1]]] for c in log['classifiers'] or []],
           'properties': [[k[1], thaw(v)] for k, v in log['properties'] or []], 'globals': {g[0].lower(): pairs(g[1]) for g in log['globals'] or []}, 'traces': []}
    base = {k: v for k, v in out['globals'].get('event', {}).items() if k not in (NAME, TIME)}
    for n, _, events in log['variants']:
        for _ in range(n):
            out['traces'].append([{'name': e[0][1], 'time': int(e[1]), 'payload': {**base, **pairs(e[2] or [])}} for e in events])
    return out


def bxes(mon, path):
    with open(path, encoding='utf-8') as f:
        log = json.load(f)
    for _, _, events in log['variants']:
        for e in events:
            keys = [k[1] for k, _ in e[2] or []]
            mon.equal(len(set(keys)), len(keys), 'every attribute once in BXES', log=log)
    return bxes_content(log)


def filled(model):
    """What events have when a file with these defaults is read."""
    out = copy.deepcopy(model)
    base = {} if out.get('traces only') else {k: v for k, v in out['globals'].get('event', {}).items() if k not in (NAME, TIME)}
    for t in out['traces']:
        for e in t:
            e['payload'] = {**base, **e['payload']}
    return out


def same(mon, got, exp, kind, w):
    """The content of a file against the model; times that the backend chose are entered into the model."""
    exp = filled(exp)
    if kind == 'XES':
        exp['traces'] = [t for t in exp['traces'] if t]
        exp = json.loads(json.dumps(exp), object_hook=lambda d: {flat(k): v for k, v in d.items()})
        exp['properties'].sort(key=lambda p: p[0])
        got['properties'].sort(key=lambda p: p[0])

        def spaced(x):
            return [spaced(v) for v in x] if isinstance(x, list) else {k: spaced(v) for k, v in x.items()} if isinstance(x, dict) else flat(x)
        exp, got = spaced(exp), spaced(got)
    mon.equal([len(t) for t in got['traces']], [len(t) for t in exp['traces']], f'events of every trace in the {kind} file', **w)
    for t, u in zip(got['traces'], exp['traces']):
        chosen = [(e['time'], x['time']) for e, x in zip(t, u)]
        for e, x in zip(t, u):
            if x['time'] is None or isinstance(x['time'], str):
                mon.check(e['time'] is not None and LOW <= e['time'] <= HIGH, 'a time that the backend chooses is one that both formats have', event=e, **w)
                x['time'] = e['time']
        if chosen and all(c is None for _, c in chosen):
            times = [c for c, _ in chosen]
            mon.equal(times, sorted(times), 'times of events that have only a name do not fall', **w)
        real = [c for c, x in chosen if not isinstance(x, str) and -8 * 10 ** 18 < c < 9 * 10 ** 18]
        for c, x in chosen:
            if x == 'first':
                mon.check(all(c <= r for r in real), 'an artificial start is not after the events', trace=t, **w)
            if x == 'last':
                mon.check(all(c >= r for r in real), 'an artificial end is not before the events', trace=t, **w)
    for key in ('traces',) if exp.get('traces only') else ('extensions', 'classifiers', 'properties', 'globals', 'traces'):
        mon.equal(got[key], exp[key], f'{key} of the {kind} file', **w)


def settle(model, got):
    """The model with the times that a file shows."""
    traces = [t for t in model['traces'] if t] if len(got['traces']) != len(model['traces']) else model['traces']
    for t, u in zip(traces, got['traces']):
        for e, x in zip(t, u):
            if e['time'] is None or isinstance(e['time'], str):
                e['time'] = x['time']


# ---- where logs come from

def bxes_value(rng, mon):
    k = rng.choice(['s', 's', 'i32', 'i64', 'u32', 'u64', 'f32', 'f64', 'b', 't', 'g', 'braf', 'std'])
    mon.event(k)
    return [k, {'s': lambda: rng.choice(p42.TEXTS), 'i32': lambda: str(rng.choice([0, -1, 2 ** 31 - 1, -2 ** 31])), 'i64': lambda: str(rng.choice([0, -2 ** 63, 2 ** 63 - 1, rng.randrange(-99, 99)])),
                'u32': lambda: str(rng.choice([0, 2 ** 32 - 1, 7])), 'u64': lambda: str(rng.choice([0, 2 ** 63 - 1, 2 ** 40])),
                'f32': lambda: str(int.from_bytes(struct.pack('<f', rng.choice([0.5, -1.25, 3.0, 1024.0])), 'little')),
                'f64': lambda: str(int.from_bytes(struct.pack('<d', rng.choice([0.1, -2.5, 1e300, 5e-324, 0.0, rng.uniform(-9, 9)])), 'little')), 'b': lambda: rng.choice(['true', 'false']),
                't': lambda: str(when(rng, mon)), 'g': lambda: str(uuid.UUID(int=rng.getrandbits(128))), 'braf': lambda: rng.choice(BRAF).replace('.', ''), 'std': lambda: rng.choice(sorted(STD))}[k]()]


def when(rng, mon):
    r = rng.random()
    if r < 0.05:
        return rng.choice([LOW, HIGH, 0, -1])
    mon.event('nanoseconds', r < 0.4)
    return rng.randrange(-2 * 10 ** 18, 4 * 10 ** 18) if r < 0.4 else rng.randrange(0, 4 * 10 ** 9) * 10 ** 9


def bxes_log(rng, mon):
    s = lambda x: ['s', x]
    keys = rng.sample(['org:resource', 'cost', 'a b', '<k>', "k'", 'lifecycle:transition', 'é', 'x:y'], rng.randint(1, 5))
    pairs = lambda n, ks: [[s(k), bxes_value(rng, mon)] for k in rng.sample(ks, min(n, len(ks)))]
    some = lambda f: rng.choice([None, [], 1]) if rng.random() < 0.3 else f()
    pool = rng.sample(p42.TEXTS, rng.choice([2, 3, 5, len(p42.TEXTS)]))
    log = {'version': 1, 'extensions': [[s(f'ext{i}'), s(rng.choice(p42.TEXTS)), s('http://x/?a=1&b=2')] for i in range(rng.choice([0, 1, 2]))] or rng.choice([None, []]),
           'classifiers': [[s(rng.choice(p42.TEXTS)), [s(rng.choice(['a', '<k>', NAME])) for _ in range(rng.randint(1, 3))]] for _ in range(rng.choice([0, 1, 2]))] or rng.choice([None, []]),
           'properties': pairs(rng.choice([0, 1, 2]), ['prop0', 'prop1<', 'a "']) or rng.choice([None, []]),
           'globals': [[k, pairs(rng.randint(1, 3), keys + [NAME])] for k in ('Event', 'Trace', 'Log') if rng.random() < 0.35] or rng.choice([None, []])}
    base = {k[1]: v for g in log['globals'] or [] if g[0] == 'Event' for k, v in g[1]}
    mon.event('global', len(log['globals'] or []))
    log['variants'] = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        n = rng.choice([1, 1, 1, 2, 3])
        mon.event('variant of several traces', n > 1)
        events = []
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            attrs = pairs(rng.choice([0, 1, 2, 3]), keys) or rng.choice([None, []])
            mon.event('attributes absent', attrs is None)
            events.append([s(rng.choice(pool)), str(when(rng, mon)), attrs])
        log['variants'].append([n, pairs(1, keys) if rng.random() < 0.3 else [], events])
    mon.event('default left out', bool(base) and bool(log['variants']))
    return log


def read(kind):
    return ('do', f'ReadLogFrom{kind}', {})


def write(kind, path):
    return ('do', f'WriteLogTo{kind}', {'path': text(path)})


def source(rng, mon):
    """Steps, initial context and the model of the log, None while it is not known."""
    r = rng.random()
    if r < 0.45:
        mon.event('from XES')
        path = os.path.join(mon.scratch, rng.choice(['in.xes', 'in é.xes', 'a b.xes']))
        chunks = p42.make(rng, mon)
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(c[0] for c in chunks))
        return [read('Xes')], {'path': text(path)}, nanos(p42.content(mon, chunks))
    if r < 0.75:
        mon.event('from BXES')
        path = os.path.join(mon.scratch, 'in.bxes')
        log = bxes_log(rng, mon)
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(log, f)
        return [read('Bxes')], {'path': text(path)}, bxes_content(log)
    mon.event('from names')
    log = gen.names_log(rng, max_traces=5, max_len=12)
    return [('do', 'UseNamesEventLog', {})], {'names_event_log': names(log)}, dict(empty(), traces=[[{'name': n, 'time': None, 'payload': {}} for n in t] for t in log])


# ---- parts that change the log

def change(rng, mon, model):
    """A part and the model after it."""
    seen = sorted({e['name'] for t in model['traces'] for e in t}) or ['a']
    kind = rng.choice(['FilterEventsByName', 'FilterEventsByRegex', 'FilterTracesByEventsCount', 'FilterLogByVariants', 'AddArtificialStartEndEvents', 'AddArtificialStartEvents',
                       'AddArtificialEndEvents', 'ApplyClassExtractor', 'SubstituteUnderlyingEvents', 'ClearActivities', 'ExecuteFrontendPipeline'])
    out, conf = copy.deepcopy(model), {}
    if kind == 'FilterEventsByName':
        n = rng.choice(seen)
        conf = {'event_name': text(n)}
        out['traces'] = [t for t in ([e for e in t if e['name'] != n] for t in out['traces']) if t]
    elif kind == 'FilterEventsByRegex':
        p = rng.choice(['a', '^B', 'é|x', r'\d', 'zzz'])
        conf = {'regex': text(p)}
        out['traces'] = [t for t in ([e for e in t if not re.search(p, e['name'])] for t in out['traces']) if t]
    elif kind == 'FilterTracesByEventsCount':
        n = rng.choice([0, 1, 2, 3])
        conf = {'events_count': u32(n)}
        out['traces'] = [t for t in out['traces'] if len(t) >= n]
    elif kind == 'FilterLogByVariants':
        known = set()
        out['traces'] = [t for t in out['traces'] if (k := tuple(e['name'] for e in t)) not in known and not known.add(k)]
    elif kind.startswith('AddArtificial'):
        for t in out['traces']:
            if 'Start' in kind:
                mon.event('artificial start')
                t.insert(0, {'name': 'ARTIFICIAL_START', 'time': 'first', 'payload': {}})
            if 'End' in kind:
                mon.event('artificial end')
                t.append({'name': 'ARTIFICIAL_END', 'time': 'last', 'payload': {}})
    elif kind == 'ApplyClassExtractor':
        r, f = rng.choice(['[a-zA-Z]', '[^ ]+', '.']), rng.choice(['.*', 'a', ' '])
        conf = {'event_class_regex': text(r), 'regex': text(f)}
        for t in out['traces']:
            for e in t:
                m = re.match(r, e['name']) if re.search(f, e['name']) else None
                if m:
                    mon.event('renamed', e['name'] != m.group())
                    e['name'] = m.group()
    elif kind == 'SubstituteUnderlyingEvents':
        out['traces only'] = True  # whether the new log keeps extensions, classifiers and the like is left open
    elif kind == 'ExecuteFrontendPipeline':
        mon.event('nested')
        inner = Steps()
        for _ in range(rng.randint(0, 2)):
            p, out = change(rng, mon, out)
            inner.append(p)
        conf = {'pipeline': inner}
    return ('do', kind, conf), out


def abstraction(rng):
    return [('do', 'FindPrimitiveTandemArrays', {'tandem_array_length': u32(4)}) if rng.random() < 0.5 else ('do', 'FindMaximalRepeats', {'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', 'FromAllTraces')}),
            ('do', 'DiscoverActivities', {'activity_level': u32(0)}),
            ('do', 'DiscoverActivitiesInstances', {'narrow_activities': enum('ActivityNarrowingKind', 'DontNarrow'), 'min_activity_length': u32(0),
                                                   'activity_in_trace_filter_kind': enum('ActivityInTraceFilterKind', 'NoFilter')}),
            ('do', 'CreateLogFromActivities', {'undef_activity_handling_strategy': enum('UndefActivityHandlingStrategyDto', rng.choice(['InsertAllEvents', 'InsertAllEvents', 'InsertAsSingleEvent', 'DontInsert']))})]


def of_names(model):
    return [[e['name'] for e in t] for t in model['traces']]


def faults(model):
    """What makes the log impossible to write as BXES."""
    if model.get('traces only'):
        model = dict(model, globals={}, properties=[])
    out = [f'Not supported global entity type: {s}' for s in model['globals'] if s not in ('event', 'trace', 'log')]
    dates = [v[1] for _, v in model['properties'] if v[0] == 'date'] + [v[1] for d in model['globals'].values() for v in d.values() if v[0] == 'date']
    base = model['globals'].get('event', {})
    for t in model['traces']:
        for e in t:
            dates += [v[1] for k, v in e['payload'].items() if v[0] == 'date' and base.get(k) != v] + ([e['time']] if isinstance(e['time'], int) else [])
    return out + [None for d in dates if not LOW <= d <= HIGH]


def final(mon, a, exp, w):
    """Whether the pipeline succeeds as it must; exp: the errors that may be reported, none: it succeeds."""
    if not exp:
        mon.check(a.error is None and bool(a.guid), 'reading and writing succeeds', final=a.final, **w)
        sv.S.drop(a.guid)
        return True
    mon.check(a.error is not None, 'what cannot be done is reported', faults=exp, final=a.final, **w)
    if None not in exp:
        mon.check(a.error in exp, 'the error names what is wrong', error=a.error, faults=exp, **w)
    return False


def last_names(a):
    return sv.names_of(a.results[-1][1]['names_event_log'])


def forget(path):
    if os.path.exists(path):
        os.remove(path)


def back(rng, mon, kind, path, model, w, depth=0):
    """A file is read back, and written again in the other format or the same."""
    exp = filled(model)
    if kind == 'XES':
        exp['traces'] = [t for t in exp['traces'] if t]
        exp['properties'].sort(key=lambda p: p[0])
    other = rng.choice(['XES', 'BXES'])
    target = os.path.join(mon.scratch, f'again{depth}.' + other.lower())
    forget(target)
    steps = [read(kind.capitalize() if kind == 'BXES' else 'Xes'), NAMES_OF, write('Bxes' if other == 'BXES' else 'Xes', target)]
    steps[0] = read('Bxes' if kind == 'BXES' else 'Xes')
    w = dict(w, read_back=kind, then=other)
    a = sv.S.execute(steps, {'path': text(path)}, client=rng)
    mon.equal(a.results and last_names(a), of_names(exp), f'names of the log read back from {kind}', final=a.final, **w)
    mon.event(f'{kind} read back')
    if not final(mon, a, faults(exp) if other == 'BXES' else [], w):
        return
    same(mon, xes(mon, target) if other == 'XES' else bxes(mon, target), exp, other, w)
    if rng.random() < 0.15:
        with open(target, 'rb') as f:
            text_before = f.read()
        with open(target, 'wb') as f:
            f.write(bytes(rng.choice(b'abc <>"') for _ in text_before[:50]) + text_before[50:])
        a = sv.S.execute(steps, {'path': text(path)}, client=rng)
        final(mon, a, [], w)
        with open(target, 'rb') as f:
            mon.check(f.read() == text_before if other == 'XES' else True, 'a file as long as the log is written over', **w)
        same(mon, xes(mon, target) if other == 'XES' else bxes(mon, target), exp, other, w)
        mon.event('written over a file of the same length')
    if depth < 2 and rng.random() < 0.4:
        back(rng, mon, other, target, exp, w, depth + 1)


def cycle(rng, mon):
    steps, initial, model = source(rng, mon)
    w = dict(pipeline=steps, initial=initial)
    mon.event('empty trace', sum(not t for t in model['traces']))
    steps.append(NAMES_OF)
    expected = [of_names(model)]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        part, model = change(rng, mon, model)
        mon.event('changed')
        steps += [part, NAMES_OF]
        expected.append(of_names(model))
    before = None
    in_order = 'names_event_log' in initial and not any('Artificial' in repr(x) for x in steps)
    if rng.random() < 0.25 and None not in faults(model) and not any(isinstance(e['time'], str) for t in model['traces'] for e in t):
        steps += abstraction(rng) + [NAMES_OF]
        before, model = model, None
        mon.event('abstracted')
        in_order = False
    targets = []
    for kind in rng.sample(['XES', 'BXES'], rng.choice([1, 2, 2])):
        path = os.path.join(mon.scratch, rng.choice(['out.', 'out é ']) + kind.lower())
        forget(path)
        if rng.random() < 0.2:
            mon.event('overwritten')
            with open(path, 'w') as f:
                f.write('x' * 100000)
        targets.append((kind, path))
    wrong = []
    done = []
    for kind, path in targets:
        steps.append(write('Bxes' if kind == 'BXES' else 'Xes', path))
        if kind == 'BXES' and model is not None and faults(model):
            wrong = faults(model)
            mon.event('date out of range', None in wrong)
            mon.event('scope BXES does not have', any(wrong))
            break
        done.append((kind, path))
    else:
        steps.append(NAMES_OF)
    a = sv.S.execute(steps, initial, client=rng)
    got = [sv.names_of(r[1]['names_event_log']) for r in a.results]
    if before is not None:
        mon.check(len(got) > len(expected), 'the names of the abstracted log are sent', final=a.final, **w)
        model = dict(empty(), traces=[[{'name': n, 'time': None, 'payload': {}} for n in t] for t in got[len(expected)]])
        expected.append(of_names(model))
    if not wrong:
        expected.append(expected[-1])
    mon.equal(got, expected, 'the names after reading, after every part and after writing', final=a.final, **w)
    ok = final(mon, a, wrong, w)
    for kind, path in done:
        content = xes(mon, path) if kind == 'XES' else bxes(mon, path)
        mon.event(f'written as {kind}')
        if before is not None:
            kept(mon, content, before, w)
            settled = copy.deepcopy(content)
            mon.equal([[e['name'] for e in t] for t in content['traces']], [[flat(e['name']) if kind == 'XES' else e['name'] for e in t] for t in model['traces'] if t or kind == 'BXES'],
                      f'names of the abstracted log in the {kind} file', **w)
            mon.check(all(LOW <= e['time'] <= HIGH for t in content['traces'] for e in t), 'every event of the abstracted log has a time that both formats have', file=content, **w)
            if kind == 'BXES':
                model = settled
                before = None
            continue
        same(mon, content, model, kind, w)
        if in_order:
            mon.event('times of names')
            mon.check(all(x['time'] < y['time'] for t in content['traces'] for x, y in zip(t, t[1:])), 'the events of a log of names follow one another in time', file=content, **w)
        settle(model, content)
        if model.get('traces only') and content['globals']:
            ok = False
    if ok and before is None and done:
        kind, path = rng.choice(done)
        back(rng, mon, kind, path, model, w)
        if sum(map(len, model['traces'])) > 1:
            mon.distinct(repr(model))
            mon.sample({'pipeline': repr(steps)[:600], 'file': open(done[0][1], encoding='utf-8', newline='').read()[:900]})


def kept(mon, content, before, w):
    """Events of an abstracted log that are no activities are the events of the log it was made from."""
    times = {e['time'] for t in before['traces'] for e in t if e['time'] is not None}
    spaced = lambda e: json.dumps([flat(e['name']), e['time'], sorted((flat(k), v[0], flat(v[1])) for k, v in e['payload'].items())])
    olds = [[spaced(e) for e in t] for t in before['traces'] if t]
    for t in content['traces']:
        mine = [spaced(e) for e in t if e['time'] in times]
        for e in t:
            mon.check(e['time'] in times or not e['payload'], 'an event made for an activity has no attributes', event=e, **w)
        mon.event('kept events of an abstracted log', len(mine))

        def within(o):
            it = iter(o)
            return all(m in it for m in mine)
        mon.check(any(within(o) for o in olds) or not mine, 'the events between activities keep their name, time and attributes', events=mine, **w)


def errors(rng, mon):
    kind = rng.choice(['missing file', 'missing file', 'broken file', 'missing setting', 'no such folder', 'missing log', 'no path'])
    fmt = rng.choice(['Xes', 'Bxes'])
    if kind == 'missing file':
        path = os.path.join(mon.scratch, 'none', 'x é.log')
        a = sv.S.execute([read(fmt), NAMES_OF], {'path': text(path)}, client=rng)
        mon.check((a.error or '').startswith(f'Failed to read event log from {path}'), 'a missing file is reported', final=a.final)
    elif kind == 'broken file':
        path = os.path.join(mon.scratch, 'broken.bxes')
        log = bxes_log(rng, mon)
        how = rng.choice(['text', 'name', 'key', 'classifier', 'extension', 'property', 'global'])
        if how == 'name':
            log['variants'].append([1, [], [[['i32', '1'], '5', None]]])
        elif how == 'key':
            log['variants'].append([2, [], [[['s', 'a'], '5', [[['b', 'true'], ['s', 'x']]]]]])
        elif how == 'classifier':
            log['classifiers'] = [[['s', 'a'], [['i64', '2']]]]
        elif how == 'extension':
            log['extensions'] = [[['s', 'a'], ['u32', '2'], ['s', 'b']]]
        elif how == 'property':
            log['properties'] = [[['f64', '0'], ['s', 'b']]]
        elif how == 'global':
            log['globals'] = [['Event', [[['f64', '0'], ['s', 'b']]]]]
        with open(path, 'w') as f:
            f.write('not a log' if how == 'text' else json.dumps(log))
        a = sv.S.execute([read('Bxes'), NAMES_OF], {'path': text(path)}, client=rng)
        mon.check((a.error or '').startswith(f'Failed to read event log from {path}, error: '), 'a BXES file that is no event log is reported', how=how, final=a.final)
    elif kind == 'missing setting':
        a = sv.S.execute([('do', 'UseNamesEventLog', {}), ('do', f'WriteLogTo{fmt}', {})], {'names_event_log': names([['a']]), 'path': text('elsewhere')}, client=rng)
        mon.equal(a.error, 'path', 'writing without a path is reported')
    elif kind == 'no path':
        mon.event('missing setting')
        a = sv.S.execute([read(fmt)], {}, client=rng)
        mon.equal(a.error, 'path', 'reading without a path is reported')
        return
    elif kind == 'missing log':
        path = os.path.join(mon.scratch, 'never')
        forget(path)
        a = sv.S.execute([write(fmt, path)], {}, client=rng)
        mon.equal(a.error, 'event_log', 'writing without a log is reported')
        mon.check(not os.path.exists(path), 'nothing is written without a log')
    else:
        path = os.path.join(mon.scratch, 'no', 'folder', 'x')
        a = sv.S.execute([('do', 'UseNamesEventLog', {}), write(fmt, path), NAMES_OF], {'names_event_log': names([['a']])}, client=rng)
        mon.check(bool(a.error) and not a.results, 'a file that cannot be written is reported', final=a.final)
    mon.event(kind)


def side_by_side(rng, mon):
    """Pipelines that write at the same time do not mix their logs."""
    mon.event('together')
    runs, expected = [], []
    for i in range(rng.randint(2, 4)):
        fmt = rng.choice(['Xes', 'Bxes'])
        log = [[f'{i}{rng.choice("abc")}' for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]
        path = os.path.join(mon.scratch, f'side{i}')
        runs.append(([('do', 'UseNamesEventLog', {}), write(fmt, path), NAMES_OF], {'names_event_log': names(log)}, {}))
        expected.append((fmt, path, log))
    for a, (fmt, path, log) in zip(sv.S.together(runs, client=rng), expected):
        mon.check(a.error is None, 'writing at the same time succeeds', final=a.final)
        mon.equal(last_names(a), log, 'names of logs written at the same time')
        got = xes(mon, path) if fmt == 'Xes' else bxes(mon, path)
        mon.equal([[e['name'] for e in t] for t in got['traces']], log, 'files written at the same time')
        sv.S.drop(a.guid)


def run_case(rng, index, mon):
    if index % 12 == 5:
        errors(rng, mon)
    elif index % 40 == 7:
        side_by_side(rng, mon)
    else:
        cycle(rng, mon)

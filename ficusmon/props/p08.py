"""P08: in-place rewrites touch exactly what they promise."""
from .. import gen, fx
from ..gen import NAME, LIFE
from python.ficus.legacy.mutations.event_log_mutations import (preprocess_event_names_inplace, preprocess_events,
                                                               remove_lifecycle_attribute)
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.mutations.mutations_parts import (PreprocessEventsNames, PreprocessEvents,
                                                                     ApplyClassExtractor, SubstituteUnderlyingEvents,
                                                                     RemoveLifecycleTransitionsAttributes,
                                                                     AddArtificialStartEndEvents)
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log

ID = 'P08'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random logs through every in-place rewrite, directly and as pipeline parts; every event payload is compared with a '
        'reference rewrite and every call of the user callback is recorded (exactly once per event, in order)')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['names', 'events', 'extractor', 'extractor with selector', 'lifecycle removed', 'lifecycle absent',
                   'artificial', 'artificial on empty trace', 'callback calls', 'repeated', 'odd lifecycle value']


def run_case(rng, index, mon):
    names = gen.names_log(rng)
    rows = gen.payload_log(rng, names)
    for t in rows:
        for e in t:
            if rng.random() < 0.15:
                e[LIFE] = rng.choice(['', None, 0, False, 'COMPLETE', 'ate_abort'])
                mon.event('odd lifecycle value')
    log = fx.log_of_payloads(rows, uid=True)
    for t in log:
        t.attributes['t'] = 1
    data, idents = fx.payloads(log), fx.idents(log)
    kind = rng.choice(['names', 'events', 'extractor', 'lifecycle', 'artificial'])
    calls = []
    f = rng.choice([lambda n: n.upper(), lambda n: n.split('.')[0], lambda n: 'same', lambda n: n + n, lambda n: n])
    part, want, called, expect = None, None, None, None
    flat = [e for t in data for e in t]
    if kind == 'names':
        mon.event('names')

        def cb(n):
            calls.append(n)
            return f(n)
        want = [[{**e, NAME: f(e[NAME])} for e in t] for t in data]
        called = [e[NAME] for e in flat]
        direct = lambda: preprocess_event_names_inplace(log, cb)
        part = PreprocessEventsNames(cb)
    elif kind == 'events':
        mon.event('events')
        which = rng.choice(['add', 'del', 'swap'])

        def change(p):
            if which == 'add':
                p['new'] = p['uid'] * 2
            elif which == 'del':
                p.pop(LIFE, None)
            else:
                p[NAME] = p[NAME] + '!'

        def cb(e):
            calls.append(e['uid'])
            change(e.payload)
        want = [[dict(e) for e in t] for t in data]
        for t in want:
            for e in t:
                change(e)
        called = [e['uid'] for e in flat]
        direct = lambda: preprocess_events(log, cb)
        part = PreprocessEvents(cb)
    elif kind == 'extractor':
        def cb(e):
            calls.append(e['uid'])
            return f(e[NAME]) + str(e['uid'] % 2)
        direct = None
        if rng.random() < 0.5:
            mon.event('extractor')
            sel = lambda p: True
            part = ApplyClassExtractor(cb)
        else:
            mon.event('extractor with selector')
            m = rng.choice([2, 3])
            sel = lambda p: p['uid'] % m == 0
            part = ApplyClassExtractor(cb, sel)
        want = [[{**e, NAME: f(e[NAME]) + str(e['uid'] % 2)} if sel(e) else e for e in t] for t in data]
        called = [e['uid'] for e in flat if sel(e)]
    elif kind == 'lifecycle':
        if any(LIFE in e for e in flat):
            mon.event('lifecycle removed')
        if any(LIFE not in e for e in flat):
            mon.event('lifecycle absent')
        want = [[{k: v for k, v in e.items() if k != LIFE} for e in t] for t in data]
        direct = lambda: remove_lifecycle_attribute(log)
        part = RemoveLifecycleTransitionsAttributes()
    else:
        mon.event('artificial')
        if any(not t for t in data):
            mon.event('artificial on empty trace')
        want = [[{NAME: 'ARTIFICIAL_START'}] + t + [{NAME: 'ARTIFICIAL_END'}] for t in data]
        direct, part = None, AddArtificialStartEndEvents()
    if direct is not None and rng.random() < 0.5:
        mon.call(direct, what='direct ' + kind)
    else:
        out = get_log(mon.call(Pipeline(UseExistingLog(), part), log, what='pipeline ' + kind))
        mon.equal(fx.payloads(out), want, f'{kind}: the log handed on has wrong events')
    mon.equal(fx.payloads(log), want, f'{kind}: events were not rewritten as promised', names=names)
    if called is not None:
        mon.event('callback calls', len(calls))
        mon.equal(calls, called, f'{kind}: the callback was not called exactly once per event')
    now = fx.idents(log)
    if kind == 'artificial':
        now = [t[1:-1] for t in now]
    mon.equal(now, idents, f'{kind}: event objects were replaced or reordered')
    mon.check(all(t.attributes == {'t': 1} for t in log), f'{kind}: trace attributes changed')
    if kind in ('lifecycle', 'artificial'):
        Pipeline(UseExistingLog(), part)(log)
        mon.event('repeated')
        if kind == 'artificial':
            want = [[{NAME: 'ARTIFICIAL_START'}] + t + [{NAME: 'ARTIFICIAL_END'}] for t in want]
        mon.equal(fx.payloads(log), want, f'{kind}: second application is wrong')
        evs = [id(e) for t in log for e in t]
        mon.check(len(evs) == len(set(evs)), f'{kind}: one event object is used at several places')
    if flat:
        mon.distinct(kind, names)
        mon.sample((kind, names))

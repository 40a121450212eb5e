"""P06: removing events / short traces is exact, keeps order and leaves the input alone."""
from .. import gen, fx
from ..gen import NAME, LIFE
from python.ficus.legacy.mutations.event_log_mutations import (remove_event_from_log, remove_events_from_log, filter_log,
                                                               remove_empty_traces)
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.mutations.mutations_parts import (RemoveEventFromLogByName, RemoveEventsFromLogByNames,
                                                                     RemoveEventsFromLogPredicate)
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log

ID = 'P06'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random logs (uid per event) run through every removal/trace filter, directly and as pipeline parts, with names '
        'present, absent, prefixes of each other and predicates on payload; compared with a list-comprehension reference; '
        'non-trivial: something was removed and something kept')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['by name', 'by names', 'by predicate', 'by count', 'trace became empty', 'nothing removed',
                   'everything removed', 'pipeline', 'composition']


def run_case(rng, index, mon):
    names = gen.names_log(rng)
    pl = gen.payload_log(rng, names)
    log = fx.log_of_payloads(pl, uid=True)
    before, idents = fx.snapshot(log), fx.idents(log)
    data = fx.payloads(log)
    known = sorted({n for t in names for n in t})

    def pick():
        r = rng.random()
        if known and r < 0.75:
            return rng.choice(known)
        if known and r < 0.9:
            n = rng.choice(known)
            return rng.choice([n + 'x', n[:-1], n.upper(), n + ' '])
        return rng.choice(['zzz', '', 'a', 'None'])

    kind = rng.choice(['by name', 'by names', 'by predicate', 'by count'])
    mon.event(kind)
    part = rng.random() < 0.4
    if kind == 'by name':
        n = pick()
        keep = lambda e: e[NAME] != n
        fn, p = (lambda l: remove_event_from_log(l, n)), RemoveEventFromLogByName(n)
    elif kind == 'by names':
        ns = [pick() for _ in range(rng.randint(0, 4))]
        keep = lambda e: e[NAME] not in ns
        fn = lambda l: remove_events_from_log(l, set(ns))
        p = RemoveEventsFromLogByNames(rng.choice([list, tuple, set, iter])(ns))
    elif kind == 'by predicate':
        m, r = rng.choice([2, 3, 5]), rng.randrange(2)
        bad = rng.choice([lambda e: e['uid'] % m == r, lambda e: LIFE in e, lambda e: False, lambda e: True,
                          lambda e: len(e) > 3, lambda e: e[NAME] in known[:2]])
        keep = lambda e: not bad(e)
        fn, p = (lambda l: filter_log(l, bad)), RemoveEventsFromLogPredicate(bad)
    else:
        n = rng.choice([0, 0, 1, 2, 3, 5, 8])
        if n == 0 and rng.random() < 0.5:
            fn, p = remove_empty_traces, FilterTracesByCount()
        else:
            fn, p = (lambda l: remove_empty_traces(l, min_event_count=n)), FilterTracesByCount(n)
    if kind == 'by count':
        want = [t for t in data if len(t) > n]
    else:
        want = [[e for e in t if keep(e)] for t in data]
        if any(not t and s for t, s in zip(want, data)):
            mon.event('trace became empty')
        want = [t for t in want if t]
    if part:
        mon.event('pipeline')
        got = get_log(mon.call(Pipeline(UseExistingLog(), p), log, what='pipeline ' + kind))
    else:
        got = mon.call(fn, log, what='remove ' + kind)
    mon.equal(fx.payloads(got), want, f'{kind}: the remaining events are wrong', names=names)
    mon.equal(fx.snapshot(log), before, f'{kind}: the input log was changed')
    mon.equal(fx.idents(log), idents, f'{kind}: events of the input log were replaced')
    mon.check(got is not log, f'{kind}: the input log itself was returned')
    n_in, n_out = sum(map(len, data)), sum(map(len, want))
    mon.event('nothing removed' if n_in == n_out else 'everything removed' if n_out == 0 else 'partial')
    if 0 < n_out < n_in:
        mon.distinct(kind, names, n_out)
        mon.sample((kind, names, fx.names(got)))
    # removing a set at once = removing its members one after the other, in any order
    if known and rng.random() < 0.3:
        s = rng.sample(known, rng.randint(1, len(known)))
        a = mon.call(remove_events_from_log, log, set(s))
        b = log
        for n in s:
            b = mon.call(remove_event_from_log, b, n)
        c = mon.call(filter_log, log, lambda e: e[NAME] in s)
        mon.event('composition')
        ref = [t for t in ([e for e in t if e[NAME] not in s] for t in data) if t]
        for x, how in ((a, 'at once'), (b, 'one by one'), (c, 'by predicate')):
            mon.equal(fx.payloads(x), ref, f'removing {s} {how} gives a wrong log')

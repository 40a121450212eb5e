"""P09: event counts and directly-follows relations are exact."""
from collections import Counter

from .. import gen, fx
from ..gen import NAME
from python.ficus.legacy.analysis.event_log_info import (create_dfg, create_log_information, calculate_events_in_each_trace,
                                                         find_all_events_names, calculate_events_count, apply_to_all_events)

ID = 'P09'
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 60000}
RULE = ('random logs, random sets of ignored names, with and without artificial start/end; all counts compared with a '
        'reference and with the same call on the log with those events physically removed; non-trivial: two different names')
ASSUMPTIONS = ['no event is called like the artificial start/end markers']
REQUIRED_EVENTS = ['same log edited in place', 'dfg', 'with fakes', 'ignored', 'trace fully ignored', 'trace counts', 'predicate names', 'self loop',
                   'single follower', 'many followers']


def ref_info(names, ignored, fakes):
    pairs, counts = Counter(), Counter()
    for t in names:
        t = [n for n in t if n not in ignored]
        counts.update(t)
        if fakes and t:
            t = ['FAKE_START'] + t + ['FAKE_END']
        pairs.update(zip(t, t[1:]))
    return dict(pairs), dict(counts)


def check_dfg(mon, dfg, pairs, names):
    mon.equal(dict(dfg.pairs), pairs, 'directly-follows counts are wrong', names=names)
    followers = {}
    for (a, b), c in pairs.items():
        followers.setdefault(a, {})[b] = c
    mon.equal({k: dict(v) for k, v in dfg.followed_events.items()}, followers, 'followers are wrong', names=names)
    single = {a for a, f in followers.items() if len(f) == 1}
    if single:
        mon.event('single follower')
    if len(single) < len(followers):
        mon.event('many followers')
    if any(a == b for a, b in pairs):
        mon.event('self loop')
    mon.equal(set(dfg.events_with_single_follower), single, 'the set of events with a single follower is wrong', names=names)


def run_case(rng, index, mon):
    names = gen.names_log(rng)
    log = fx.log_of_payloads(gen.payload_log(rng, names), uid=True)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    known = sorted({n for t in names for n in t})
    mon.event('dfg')
    check_dfg(mon, mon.call(create_dfg, log), ref_info(names, (), False)[0], names)
    ignored = set(rng.sample(known, rng.randint(0, len(known)))) | ({'absent'} if rng.random() < 0.2 else set())
    if ignored:
        mon.event('ignored')
        if any(t and all(n in ignored for n in t) for t in names):
            mon.event('trace fully ignored')
    for fakes in (True, False):
        for ign in (set(), ignored):
            kw = {} if fakes and rng.random() < 0.5 else {'add_fake_start_end_events': fakes}
            if ign or rng.random() < 0.5:
                kw['ignored_events'] = ign
            info = mon.call(create_log_information, log, **kw)
            pairs, counts = ref_info(names, ign, fakes)
            if fakes:
                mon.event('with fakes')
            mon.equal(dict(info.events_count), counts, 'event counts are wrong', names=names, ignored=ign)
            check_dfg(mon, info.dfg, pairs, names)
    tc = mon.call(calculate_events_in_each_trace, log)
    mon.event('trace counts')
    mon.equal([(dict(c.counts), c.overall_count) for c in tc], [(dict(Counter(t)), len(t)) for t in names], 'counts per trace are wrong')
    mon.equal(mon.call(calculate_events_count, log), sum(map(len, names)), 'the number of events is wrong')
    m = rng.choice([1, 2, 3])
    pred = rng.choice([lambda e: e['uid'] % m == 0, lambda e: True, lambda e: False, lambda e: len(e) > 3, lambda e: e[NAME] in known[:2]])
    ok = {}
    for t in log:
        for e in t:
            ok.setdefault(e[NAME], []).append(bool(pred(e)))
    mon.event('predicate names')
    mon.equal(set(mon.call(find_all_events_names, log, pred)), {n for n, v in ok.items() if all(v)},
              'names whose every event satisfies the predicate are wrong', names=names)
    seen = []
    mon.call(apply_to_all_events, log, lambda e: seen.append(id(e)))
    mon.equal(seen, [i for t in fx.idents(log) for i in t], 'not every event was visited once in order')
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    if len(known) > 1:
        mon.distinct(names, sorted(ignored))
        mon.sample((names, ignored))

"""P17: activity instances in traces."""
from ..acts import *
from ..ref_patterns import greedy_instances

ID = 'P17'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random logs; activities discovered by the real code from every pattern source, then instances searched in the same '
        'or another log, with/without narrowing, with filters; compared with a reference scan over class sets, plus coverage, '
        'disjointness and membership; non-trivial: an instance longer than one event')
ASSUMPTIONS = ['the activity forest is the one checked by P16']
REQUIRED_EVENTS = ['instance', 'narrowed', 'not narrowed', 'switched to larger activity', 'unattached event', 'filtered out', 'other log',
                   'class extractor', 'high level repeats', 'high level tandem', 'no activities', 'gap filled', 'gap too short']


def expected(cls, roots, forest, narrow):
    return [greedy_instances(t, roots, forest.of, forest.children, narrow) for t in cls]


def check_all(mon, cls, roots, forest, got, exp, what, filtered=False, **w):
    mon.equal(len(got), len(cls), f'{what}: not one list of instances per trace', **w)
    known = set().union(*[forest.of(r) for r in roots]) if roots else set()
    for t, g, e in zip(cls, got, exp):
        check_instances(mon, e, g, forest, what, trace=t, **w)
        disjoint(mon, len(t), g, what, trace=t, **w)
        covered = set()
        for i in g:
            mon.event('instance')
            mon.check(set(t[i.start_pos:i.start_pos + i.length]) <= forest.of(i.node), f'{what}: an instance contains an event its activity does not have', trace=t, **w)
            covered |= set(range(i.start_pos, i.start_pos + i.length))
        for k, c in enumerate(t):
            if not filtered:
                mon.check((c in known) == (k in covered), f'{what}: an event of a known activity is not in an instance or the other way round', event=c, trace=t, **w)
            if c not in known:
                mon.event('unattached event')


def run_case(rng, index, mon):
    names = rep_log(rng)
    log = fx.log_of_names(names)
    ext = rng.choice(EXTRACTORS)
    if ext is not None:
        mon.event('class extractor')
    cls = classes(log, ext)
    src = pattern_source(rng, ext)
    ctx = Pipeline(UseExistingLog(), src, DiscoverRepeatsSets(ext), DiscoverActivities(0, ext))(log)
    roots = A.activities(ctx)
    forest = Forest()
    forest.add(roots, cls)
    if not roots:
        mon.event('no activities')
    names2 = names
    if rng.random() < 0.3:
        mon.event('other log')
        alpha = sorted({n for t in names for n in t}) or ['a']
        names2 = [[rng.choice(alpha + ['zz']) for _ in range(rng.randint(0, 12))] for _ in range(rng.randint(0, 4))]
    log2 = fx.log_of_names(names2)
    cls2 = classes(log2, ext)
    snap = fx.snapshot(log2)
    narrow = rng.random() < 0.6
    exp = expected(cls2, roots, forest, narrow)
    w = dict(names=names2, narrow=narrow, activities=[sorted(forest.of(r)) for r in roots])
    wide = expected(cls2, roots, forest, False)
    for a, b in zip(exp, wide):
        for x, y in zip(a, b):
            if x[0] != y[0]:
                mon.event('narrowed')
    for t, e in zip(cls2, wide):
        for ok, s, l in e:
            first = min(roots, key=lambda r: (t[s] not in forest.of(r), len(forest.of(r)), r.name))
            if not any(first is o for o in ok):
                mon.event('switched to larger activity')
    if not narrow:
        mon.event('not narrowed')
    got = mon.call(EP.extract_activities_from_log, log2, roots, event_class_extractor=ext, should_narrow_activity=narrow)
    check_all(mon, cls2, roots, forest, got, exp, 'extraction', **w)
    # filter: called once per found instance, keeps exactly those accepted
    m = rng.choice([1, 2, 3])
    calls = []

    def flt(info):
        calls.append((info.start_pos, info.length))
        return info.length >= m

    ctx2 = PipelinePartResult().with_log(log2).with_activities(roots)
    res = mon.call(DiscoverActivitiesInTraces(ext or by_name, flt, narrow), ctx2, what='DiscoverActivitiesInTraces')
    kept = [[x for x in e if x[2] >= m] for e in exp]
    if kept != exp:
        mon.event('filtered out')
    check_all(mon, cls2, roots, forest, A.traces_activities(res), kept, 'part with filter', filtered=True, **w)
    mon.equal(calls, [(s, l) for e in exp for _, s, l in e], 'the filter did not see every found instance once', **w)
    mon.equal(fx.snapshot(log2), snap, 'the log was changed')

    # filling the gaps between existing instances
    existing = A.traces_activities(res)
    keepb = plain(existing)
    minev = rng.choice([0, 1, 2, 3])
    narrow2 = rng.random() < 0.6
    res2 = mon.call(DiscoverActivitiesInUnattachedSubTraces(ext or by_name, minev, should_narrow_activity=narrow2), ctx2, what='DiscoverActivitiesInUnattachedSubTraces')
    mon.equal(len(A.traces_activities(res2)), len(cls2), 'filling gaps: not one list of instances per trace', **w)
    for t, old, new in zip(cls2, existing, A.traces_activities(res2)):
        want, pos = [], 0
        for s, l, node in [(i.start_pos, i.length, i.node) for i in old] + [(len(t), 0, None)]:
            if s > pos:
                if s - pos >= minev:
                    for ok, a, b in greedy_instances(t[pos:s], roots, forest.of, forest.children, narrow2):
                        want.append((ok, pos + a, b))
                        mon.event('gap filled')
                else:
                    mon.event('gap too short')
            if node is not None:
                want.append(({node}, s, l))
            pos = s + l
        check_instances(mon, want, new, forest, 'filling gaps', trace=t, existing=[(i.start_pos, i.length) for i in old], minimum=minev, **w)
        disjoint(mon, len(t), new, 'filling gaps', trace=t)
    mon.equal(plain(existing), keepb, 'filling gaps changed the previous instances')
    if any(l > 1 for e in exp for _, _, l in e):
        mon.distinct(names2, narrow, w['activities'])
        mon.sample((names2, w['activities'], [[(s, l) for _, s, l in e] for e in exp]))

    # high level parts
    if rng.random() < 0.4:
        narrow3 = rng.random() < 0.6
        if rng.random() < 0.5:
            mon.event('high level repeats')
            part = DiscoverActivitiesInstancesFromRepeats(rng.choice(list(RepeatActivitiesSource)), activity_level=2, class_extractor=ext or by_name,
                                                          should_narrow_activity=narrow3, activity_in_trace_filter=lambda i: i.length >= m)
        else:
            mon.event('high level tandem')
            part = DiscoverActivitiesFromTandemArrays(rng.choice(list(TandemArrayKind)), rng.choice([4, 20]), activity_level=2, class_extractor=ext or by_name,
                                                      should_narrow_activity=narrow3, activity_in_trace_filter=lambda i: i.length >= m)
        r = mon.call(Pipeline(UseExistingLog(), part), log, what='high level discovery')
        f3 = Forest()
        f3.add(A.activities(r), cls)
        e3 = [[x for x in e if x[2] >= m] for e in expected(cls, A.activities(r), f3, narrow3)]
        check_all(mon, cls, A.activities(r), f3, A.traces_activities(r), e3, 'high level', filtered=True, names=names, narrow=narrow3)
        mon.check(all(n.activity_level == 2 for n in walk(A.activities(r))), 'high level discovery gives a wrong level')
        mon.check(A.log(r) is log, 'high level discovery hands on another log')

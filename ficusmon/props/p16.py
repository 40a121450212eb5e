"""P16: repeat sets and the activity forest built from patterns."""
from ..acts import *
from ..ref_patterns import maximal_repeats, super_maximal, near_super_maximal, tandem_arrays, primitive_arrays

ID = 'P16'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random logs, every pattern source, all-trace and merged-trace discovery, event classes and levels; the resulting '
        'sets are compared with the sets of a brute force pattern search, the forest with the inclusion order of the sets; '
        'non-trivial: a node with a parent')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['same log edited in place', 'repeat set', 'root', 'child', 'grandchild', 'merged', 'class extractor', 'no patterns', 'custom name',
                   'tie between parents']


def ref_contents(cls, source):
    out = []
    for t in cls:
        if isinstance(source, DiscoverTandemArrays):
            f = tandem_arrays if source.array_kind == TandemArrayKind.MaximalArray else primitive_arrays
            out.append([tuple(t[i:i + L]) for i, L, _ in f(t, source.max_loop_length)])
        else:
            r = maximal_repeats(t)
            if source.repeat_kind == RepeatActivitiesSource.SuperMaximalRepeats:
                r = super_maximal(r)
            elif source.repeat_kind == RepeatActivitiesSource.NearSuperMaximalRepeats:
                r = near_super_maximal(r)
            out.append(list(r))
    return out


def check_forest(mon, roots, want_sets, cls, level, names_of, what, **w):
    forest = Forest()
    forest.add(roots, cls)
    nodes = walk(roots)
    mon.check(len({id(n) for n in nodes}) == len(nodes), f'{what}: an activity appears at two places of the forest', **w)
    got = [forest.of(n) for n in nodes]
    mon.check(len(got) == len(set(got)) and set(got) == want_sets, f'{what}: the activities are not exactly the sets of events of the patterns',
              missing=want_sets - set(got), extra=set(got) - want_sets, **w)
    maximal = {s for s in want_sets if not any(s < o for o in want_sets)}
    mon.equal({forest.of(n) for n in roots}, maximal, f'{what}: the top level activities are not the sets that no other set contains', **w)
    for n in nodes:
        mon.event('child' if all(n is not r for r in roots) else 'root')
        mon.check(n.activity_level == level, f'{what}: an activity has the wrong level', got=n.activity_level, expected=level)
        mon.equal(n.name, names_of(forest.of(n)), f'{what}: an activity has the wrong name', **w)
        mon.equal(n.length, len(forest.of(n)), f'{what}: an activity has the wrong number of event classes', **w)
        for c in n.child_nodes:
            if c.child_nodes:
                mon.event('grandchild')
            s = forest.of(c)
            mon.check(s < forest.of(n), f'{what}: a child activity is not contained in its parent', parent=forest.of(n), child=s, **w)
            sup = [len(o) for o in want_sets if s < o]
            if sup.count(min(sup)) > 1:
                mon.event('tie between parents')
            mon.check(len(forest.of(n)) == min(sup), f'{what}: the parent is not a smallest activity that contains the child',
                      parent=forest.of(n), child=s, **w)
    return forest


def run_case(rng, index, mon):
    names = rep_log(rng)
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    ext = rng.choice(EXTRACTORS)
    if ext is not None:
        mon.event('class extractor')
    src = pattern_source(rng, ext)
    cls = classes(log, ext)
    w = dict(names=names, source=(type(src).__name__, getattr(src, 'array_kind', None) or src.repeat_kind))
    level = rng.choice([0, 0, 1, 3])
    custom = rng.random() < 0.2
    if custom:
        mon.event('custom name')
        creator = lambda sub, l, e: 'N%d' % len({e(x) for x in l[sub.trace_index][sub.first_pos:sub.first_pos + sub.length]})
        names_of = lambda s: 'N%d' % len(s)
    else:
        creator = default_activity_name_creator
        names_of = lambda s: '::'.join(sorted(s))
    contents = ref_contents(cls, src)
    want_sets = {frozenset(c) for t in contents for c in t}
    res = mon.call(Pipeline(UseExistingLog(), src, DiscoverRepeatsSets(ext), DiscoverActivities(level, ext, creator)), log, what='discovery of activities')
    got_sets = []
    pats = {(ti, p.first_pos, p.length) for ti, t in enumerate(A.patterns(res)) for p in t}
    for r in A.repeat_sets(res):
        mon.check((r.trace_index, r.first_pos, r.length) in pats, 'a repeat set does not refer to a pattern of the log', repeat_set=r, **w)
        got_sets.append(frozenset(cls[r.trace_index][r.first_pos:r.first_pos + r.length]))
        mon.event('repeat set')
    mon.check(len(got_sets) == len(set(got_sets)) and set(got_sets) == want_sets, 'the repeat sets are not exactly the distinct sets of events of the patterns',
              missing=want_sets - set(got_sets), extra=set(got_sets) - want_sets, **w)
    check_forest(mon, A.activities(res), want_sets, cls, level, names_of, 'forest', **w)
    mon.check(A.log(res) is log, 'the log handed on is not the input log')
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    if not want_sets:
        mon.event('no patterns')
    elif any(a < b for a in want_sets for b in want_sets):
        mon.distinct(names, w['source'])
        mon.sample((names, w['source'], sorted(map(sorted, want_sets))))

    # combined part, on all traces and on the merged trace
    merged = rng.random() < 0.5
    strat = ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if merged else ActivitiesDiscoveryStrategy.DiscoverFromAllTraces
    part = DiscoverActivitiesFromPatterns(src, activities_discovery_strategy=strat, class_extractor=ext or by_name, activity_level=level)
    if merged:
        if isinstance(src, DiscoverTandemArrays) or (ext is not None and ext is not by_name):
            return   # separators fall into classes of their own only when the class is the name
        mon.event('merged')
        joined = []
        for k, t in enumerate(cls):
            joined += list(t) + [('sep', k)]
        cont = ref_contents([joined], src)
        want = {frozenset(c) for c in cont[0]}
    else:
        want = want_sets
    res = mon.call(Pipeline(UseExistingLog(), part), log, what='DiscoverActivitiesFromPatterns')
    mon.check(A.log(res) is log, 'the log handed on is not the input log')
    roots = A.activities(res)
    if merged:
        got = {n.name for n in walk(roots)}
        mon.equal(got, {'::'.join(sorted(s)) for s in want}, 'merged: the activities are not the sets of events of the patterns of the merged trace', **w)
        mon.equal({n.name for n in roots}, {'::'.join(sorted(s)) for s in want if not any(s < o for o in want)}, 'merged: wrong top level activities', **w)
    else:
        check_forest(mon, roots, want, cls, level, lambda s: '::'.join(sorted(s)), 'combined part', **w)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')

"""P19: adjusting with activities from unattached events and discovery over several class levels."""
from ..acts import *
from ..ref_patterns import maximal_repeats, greedy_instances

ID = 'P19'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random hierarchical logs; one or several adjusting rounds in both modes and both discovery strategies, with minimal '
        'gap lengths, filters and narrowing; new activities compared with the inclusion-maximal sets of brute force repeats of '
        'the right source log, instances with a reference gap filling; non-trivial: a later round adds an instance')
ASSUMPTIONS = ['event classes do not contain the separator of activity names']
REQUIRED_EVENTS = ['unattached mode', 'whole log mode', 'merged', 'all traces', 'several levels', 'with previous activities', 'without previous activities',
                   'instance added later', 'gap too short', 'filtered out', 'level assigned', 'empty log', 'far gap']

HIER = [by_name, lambda e: e[NAME].rsplit('.', 1)[0], lambda e: e[NAME].split('.')[0]]


def sets_of(cls, merged):
    if merged:
        joined = []
        for k, t in enumerate(cls):
            joined += list(t) + [('sep', k)]
        cls = [joined]
    return {frozenset(c) for t in cls for c in maximal_repeats(t)}


def cset(node):
    return frozenset(node.name.split('::'))


class ByName:
    sets = {}

    @staticmethod
    def of(n):
        return cset(n)

    @staticmethod
    def children(n):
        return list(n.child_nodes)


def fill(t, have, roots, narrow, minev, keep, mon):
    out, pos = [], 0
    for ok, s, l in have + [(None, len(t), 0)]:
        if s > pos:
            if s - pos >= minev:
                for o, a, b in greedy_instances(t[pos:s], roots, cset, ByName.children, narrow):
                    if b >= keep:
                        out.append((o, pos + a, b))
                    else:
                        mon.event('filtered out')
            else:
                mon.event('gap too short')
        if ok is not None:
            out.append((ok, s, l))
        pos = s + l
    return out


def run_case(rng, index, mon):
    alpha = gen.alphabet(rng, pool=rng.choice(['dotted', 'dotted', 'letters', 'words', 'prefixes', 'unicode']), k=rng.choice([2, 3, 4, 6, 8]))
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([5, 10, 16]), alpha=alpha, big=0.02)
    if rng.random() < 0.01:
        # one trace whose last gaps lie far from its start
        mon.event('far gap')
        far = [f'f.{i}' if rng.random() < 0.9 else rng.choice(alpha) for i in range(rng.choice([150, 270, 330]))]
        m = [rng.choice(alpha) for _ in range(2)]
        names.insert(rng.randint(0, len(names)), far + m * rng.randint(2, 4) + gen.trace(rng, alpha, 8))
    log = fx.log_of_names(names)
    snap = fx.snapshot(log)
    if not names:
        mon.event('empty log')
    ctx = PipelinePartResult().with_log(log)
    old_roots, have = [], [[] for _ in names]
    if rng.random() < 0.5:
        mon.event('with previous activities')
        ctx = Pipeline(UseExistingLog(), rng.choice([
            DiscoverActivitiesFromTandemArrays(TandemArrayKind.MaximalArray, rng.choice([3, 20]), activity_level=7),
            DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.SuperMaximalRepeats, activity_level=7, activity_in_trace_filter=lambda i: i.length > 1)]))(log)
        old_roots = list(A.activities(ctx))
        have = [[({i.node}, i.start_pos, i.length) for i in t] for t in A.traces_activities(ctx)]
    else:
        mon.event('without previous activities')
    mode = rng.choice(list(AdjustingMode))
    merged = rng.random() < 0.4
    strat = ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if merged else ActivitiesDiscoveryStrategy.DiscoverFromAllTraces
    minev, keep, narrow = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 1, 2]), rng.random() < 0.6
    mon.event('unattached mode' if mode == AdjustingMode.FromUnattachedSubTraces else 'whole log mode')
    mon.event('merged' if merged else 'all traces')
    exts = rng.choice([[HIER[0]], [HIER[1]], HIER[:2], HIER, [HIER[2]], [HIER[0], HIER[2]]])
    if merged:
        exts = [HIER[0]]     # separators of the merged trace are classes of their own only by name
    level0 = rng.choice([0, 0, 2])
    held = A.activities(ctx) if ctx.has_value('activities') else None
    held_copy = list(held) if held is not None else None
    prev_inst = A.traces_activities(ctx) if ctx.has_value('traces_activities') else None
    prev_copy = plain(prev_inst) if prev_inst is not None else None
    flt = lambda i: i.length >= keep
    if len(exts) > 1 or rng.random() < 0.3:
        mon.event('several levels')
        part = DiscoverActivitiesForSeveralLevels(exts, strat, level0, minev, mode, flt, narrow)
    else:
        part = AdjustWithActivitiesFromUnattachedEvents(exts[0], level0, strat, minev, mode, flt, narrow)
    res = mon.call(part, ctx, what=type(part).__name__)
    w = dict(names=names, mode=mode, merged=merged, minimum=minev, keep=keep, narrow=narrow, levels=len(exts), previous=[r.name for r in old_roots])
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    mon.check(A.log(res) is log, 'another log is handed on')
    got = A.activities(res)
    mon.check(len(got) >= len(old_roots) and all(a is b for a, b in zip(got, old_roots)), 'previous activities were lost or replaced', **w)
    if held is not None:
        mon.check(len(held) == len(held_copy) and all(a is b for a, b in zip(held, held_copy)), 'the list of activities of an earlier context was changed', **w)
    new = got[len(old_roots):]
    roots = list(old_roots)
    for k, ext in enumerate(exts):
        cls = classes(log, ext)
        src = cls
        if mode == AdjustingMode.FromUnattachedSubTraces:
            src = []
            for t, h in zip(cls, have):
                cov = {x for _, s, l in h for x in range(s, s + l)}
                src.append([c for x, c in enumerate(t) if x not in cov])
        sets = sets_of(src, merged)
        maxi = {s for s in sets if not any(s < o for o in sets)}
        mine = new[:len(maxi)]
        new = new[len(maxi):]
        mon.check({cset(n) for n in mine} == maxi and len(mine) == len(maxi), f'round {k}: the new activities are not those of the source log',
                  found=[n.name for n in mine], wanted=sorted(map(sorted, maxi)), **w)
        for n in walk(mine):
            mon.event('level assigned')
            mon.check(n.activity_level == level0 + k, f'round {k}: an activity has the wrong level', level=n.activity_level, **w)
        mon.equal({cset(n) for n in walk(mine)}, sets, f'round {k}: the new activities are not the repeat sets of the source log', **w)
        roots = roots + mine
        nxt = [fill(t, h, roots, narrow, minev, keep, mon) for t, h in zip(cls, have)]
        if k and any(len(a) > len(b) for a, b in zip(nxt, have)):
            mon.event('instance added later')
            mon.distinct(names, str(mode), merged, minev, keep, len(exts))
            mon.sample((names, str(mode), [[(s, l) for _, s, l in t] for t in nxt]))
        elif any(nxt):
            mon.distinct(names, str(mode), merged, minev, keep, len(exts))
        have = nxt
    mon.check(not new, 'activities of an unknown origin', extra=[n.name for n in new], **w)
    mon.equal(len(A.traces_activities(res)), len(names), 'not one list of instances per trace', **w)
    for t, h, g in zip(names, have, A.traces_activities(res)):
        forest = ByName()
        check_instances(mon, h, g, forest, 'adjusting', trace=t, **w)
        disjoint(mon, len(t), g, 'adjusting', trace=t, **w)
    if prev_inst is not None:
        mon.equal(plain(prev_inst), prev_copy, 'the instances of an earlier context were changed', **w)

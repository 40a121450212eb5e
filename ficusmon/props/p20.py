"""P20: discovering activities until there are no more: terminates, loses nothing."""
from ..acts import *
from ..ref_patterns import maximal_repeats, greedy_instances
from .p18 import check_abstraction, leaves
from .p19 import sets_of, cset, ByName

ID = 'P20'
LEVEL = 'exploration'
CASES = {'quick': 1200, 'thorough': 12000}
RULE = ('random logs with unique events; the recording pipelines passed to the part log every iteration (log, activities, '
        'instances before; log after); an offline checker replays the whole recorded history; loop steps bound termination; '
        'non-trivial: at least two iterations')
ASSUMPTIONS = ['event classes do not contain the separator of activity names']
REQUIRED_EVENTS = ['iteration', 'several iterations', 'ended without instances', 'ended without progress', 'level increased', 'level constant',
                   'leaf events compared', 'no iteration', 'merged']


class Rec(InternalPipelinePart):
    def __init__(self, f):
        self.f = f

    def execute(self, current_input):
        self.f(current_input)
        return current_input


def run_case(rng, index, mon):
    alpha = gen.alphabet(rng, pool=rng.choice(['letters', 'dotted', 'words', 'prefixes', 'hashy', 'unicode']), k=rng.choice([1, 2, 3, 4, 6, 9]))
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([4, 8, 14, 20]), alpha=alpha, big=0.02)
    log = fx.log_of_names(names, uid=True)
    snap = fx.snapshot(log)
    uids = [[e['uid'] for e in t] for t in log]
    hist = []
    before = Pipeline(Rec(lambda c: hist.append(('before', A.log(c), list(A.activities(c)), [list(t) for t in A.traces_activities(c)]))))
    after = Pipeline(Rec(lambda c: hist.append(('after', A.log(c)))))
    hashes, narrow, inc, level = rng.random() < 0.6, rng.random() < 0.6, rng.random() < 0.5, rng.choice([0, 0, 3])
    keep = rng.choice([1, 1, 2, 2, 3])
    merged = rng.random() < 0.3
    if merged:
        mon.event('merged')
    strat = ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if merged else ActivitiesDiscoveryStrategy.DiscoverFromAllTraces
    part = DiscoverActivitiesInstancesFromRepeatsUntilNoMore(
        by_name, use_hashes_as_event_name=hashes, discovery_strategy=strat, activity_in_trace_filter=lambda i: i.length >= keep,
        should_narrow_activity=narrow, initial_activity_level=level, increase_activity_level=inc,
        before_log_creation_pipeline=before, after_log_creation_pipeline=after)
    ctx = PipelinePartResult().with_log(log)
    res = mon.call(part, ctx, budget=5_000_000, what='until no more')
    out = A.log(res)
    w = dict(names=names, keep=keep, narrow=narrow, unique=hashes, merged=merged)
    mon.equal(fx.snapshot(log), snap, 'the input log was changed')
    mon.equal([h[0] for h in hist], ['before', 'after'] * (len(hist) // 2), 'the user pipelines were not run once before and once after each log creation')
    cur, size = log, sum(map(len, names))
    stopped = False
    mon.event('level increased' if inc else 'level constant')
    for k in range(len(hist) // 2):
        _, l, acts, inst = hist[2 * k]
        _, nl = hist[2 * k + 1]
        mon.event('iteration')
        mon.check(not stopped, 'the discovery went on after an iteration without progress', **w)
        mon.check(l is cur or fx.payloads(l) == fx.payloads(cur), f'iteration {k}: works on another log', **w)
        ns = fx.names(l)
        sep = any('::' in n for t in ns for n in t)
        if not sep:
            sets = sets_of(ns, merged)
            maxi = {s for s in sets if not any(s < o for o in sets)}
            mon.equal({cset(a) for a in acts}, maxi, f'iteration {k}: the activities are not those of the current log', log=ns, **w)
            mon.equal(len(inst), len(ns), f'iteration {k}: not one list of instances per trace', log=ns, **w)
            for t, g in zip(ns, inst):
                exp = [x for x in greedy_instances(t, acts, cset, ByName.children, narrow) if x[2] >= keep]
                check_instances(mon, exp, g, ByName, f'iteration {k}', trace=t, **w)
        for a in walk(acts):
            mon.equal(a.activity_level, level + (k if inc else 0), f'iteration {k}: wrong activity level', **w)
        mon.check(any(inst), f'iteration {k}: a log was created without any instance', **w)
        check_abstraction(mon, l, inst, nl, UndefinedActivityHandlingStrategy.InsertAllEvents, hashes, f'iteration {k}', **w)
        mon.event('leaf events compared')
        mon.equal([[x['uid'] for e in t for x in leaves(e)] for t in nl], uids, f'iteration {k}: events were lost, duplicated or reordered', **w)
        new = sum(map(len, nl))
        mon.check(new <= size, f'iteration {k}: the log grew', **w)
        if new == size:
            stopped = True
            mon.event('ended without progress')
        size, cur = new, nl
    mon.check(out is cur or fx.snapshot(out) == fx.snapshot(cur), 'the result is not the last log', **w)
    n = len(hist) // 2
    if n == 0:
        mon.event('no iteration')
    if n > 1:
        mon.event('several iterations')
        mon.distinct(names, keep, narrow, merged)
        mon.sample((names, n, fx.names(out)))
    if not stopped:
        mon.event('ended without instances')
        ns = fx.names(out)
        r = Pipeline(UseExistingLog(), DiscoverActivitiesInstancesFromRepeats(
            RepeatActivitiesSource.MaximalRepeats, activities_discovery_strategy=strat, should_narrow_activity=narrow,
            activity_in_trace_filter=lambda i: i.length >= keep))(out)
        mon.check(not any(A.traces_activities(r)), 'the discovery stopped although instances are left', log=ns, **w)

"""P21: one log per activity, optionally with promoted lower level activities."""
from ..acts import *
from .p19 import HIER

ID = 'P21'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random hierarchical logs, activities of 1-3 levels from the real discovery, all target levels; every produced log is '
        'compared with a reference selection; the pipeline run for each activity log is recorded; non-trivial: two logs or a promotion')
ASSUMPTIONS = ['class extractors form a hierarchy', 'activities were discovered in the log itself (not in a merged or reduced one)']
REQUIRED_EVENTS = ['plain', 'promoted', 'not promoted', 'adjusted names', 'original names', 'level without activities', 'each log visited', 'higher level skipped']


def view(logs):
    return {n: [[e.payload for e in t] for t in l] for n, l in logs.items()}


def run_case(rng, index, mon):
    alpha = gen.alphabet(rng, pool='dotted', k=rng.choice([3, 5, 8, 12]))
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([6, 10, 16, 40]), alpha=alpha, big=0.02)
    if names and rng.random() < 0.15:
        # equal instances in a row
        t = rng.choice(names)
        names = names[:2] + [list(t)] * rng.randint(1, 2) + [t * rng.randint(2, 3)]
    log = fx.log_of_names(names, uid=rng.random() < 0.5)
    snap = fx.snapshot(log)
    nl = rng.choice([1, 2, 3, 3])
    ctx = DiscoverActivitiesForSeveralLevels(HIER[:nl], ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, adjusting_mode=AdjustingMode.FromAllLog,
                                             activity_in_trace_filter=lambda i: i.length > 1, should_narrow_activity=rng.random() < 0.7)(
        PipelinePartResult().with_log(log))
    inst = A.traces_activities(ctx)
    if rng.random() < 0.5 and A.activities(ctx):
        # instances from arbitrary activities at arbitrary places exercise the selection rules beyond what discovery places
        from .p18 import random_instances
        inst = random_instances(rng, log, walk(A.activities(ctx)))
        ctx = PipelinePartResult().with_log(log).with_trace_activities(inst)
    keepi = plain(inst)
    w = dict(names=names, instances=[[(i.node.name, i.node.activity_level, i.start_pos, i.length) for i in t] for t in inst])

    level = rng.randrange(nl + 1)
    ext = rng.choice(HIER)
    want = {}
    for t, ins in zip(log, inst):
        for i in ins:
            if i.node.activity_level == level:
                want.setdefault(i.node.name, []).append([{**e.payload, NAME: ext(e)} for e in t[i.start_pos:i.start_pos + i.length]])
    if not want:
        mon.event('level without activities')
    if rng.random() < 0.5:
        logs = mon.call(EP.create_logs_for_activities, log, inst, level, ext)
    else:
        logs = A.activities_to_logs(mon.call(CreateLogsForActivities(level, ext), ctx, what='CreateLogsForActivities'))
    mon.event('plain')
    mon.equal(view(logs), want, 'the log of an activity does not hold exactly its instances', level=level, **w)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    shared = {id(e) for t in log for e in t}
    mon.check(not any(id(e) in shared for l in logs.values() for t in l for e in t), 'activity logs share event objects with the log', **w)

    # each activity log is handed to the user's pipeline exactly once
    seen = []

    class R(InternalPipelinePart):
        def execute(self, c):
            seen.append((A.activity_name(c), A.log(c)))
            return c
    ctx3 = PipelinePartResult().with_log(log).with_activities_logs(logs)
    r = mon.call(ExecuteWithEachActivityLog(Pipeline(R())), ctx3, what='ExecuteWithEachActivityLog')
    mon.check(r is ctx3 and A.log(r) is log, 'the context was changed by visiting the activity logs')
    mon.check(len(seen) == len(logs) and all(logs.get(n) is l for n, l in seen), 'not every activity log was visited exactly once', **w)
    mon.event('each log visited', len(seen))

    # with promotion
    desired = rng.randrange(nl)
    adjust = rng.random() < 0.5
    exts = HIER[:desired + 1]
    want = {}
    promo = False
    for t, ins in zip(log, inst):
        for i in ins:
            lv = i.node.activity_level
            evs = [e for e in t[i.start_pos:i.start_pos + i.length]]
            top = exts[desired]
            if lv > desired:
                mon.event('higher level skipped')
                continue
            if lv < desired:
                rs = i.node.repeat_set
                pat = {top(e) for e in log[rs.trace_index][rs.first_pos:rs.first_pos + rs.length]}
                if {top(e) for e in evs} != pat:
                    mon.event('not promoted')
                    continue
                mon.event('promoted')
                promo = True
            tr = [{**e.payload, NAME: top(e) if adjust else e[NAME]} for e in evs]
            want.setdefault(i.node.name, []).append(tr)
    mon.event('adjusted names' if adjust else 'original names')
    if rng.random() < 0.5:
        logs = mon.call(EP.create_logs_for_activities_with_promote, log, inst, desired, exts, adjust)
    else:
        logs = A.activities_to_logs(mon.call(CreateLogsForActivitiesWithPromote(desired, exts, adjust), ctx, what='CreateLogsForActivitiesWithPromote'))
    mon.equal(view(logs), want, 'with promotion: the log of an activity does not hold exactly its instances', desired=desired, adjust=adjust, **w)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    mon.equal(plain(inst), keepi, 'the instances were changed')
    if len(want) > 1 or promo:
        mon.distinct(names, desired, adjust, w['instances'])
        mon.sample((w['instances'], desired, adjust))

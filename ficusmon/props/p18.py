"""P18: abstraction of a log by activities keeps every event, in order."""
from ..acts import *
from python.ficus.legacy.analysis.patterns.util import substitute_original_events
from python.ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents

ID = 'P18'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random logs with unique events are abstracted (all strategies, both naming modes, 1-3 nested generations, real and '
        'synthetic instances) and expanded back; every produced event is compared with the reference; non-trivial: an instance '
        'covers two events or more')
ASSUMPTIONS = ['instances are ordered and disjoint, as discovery produces them']
REQUIRED_EVENTS = ['InsertAllEvents', 'InsertAsSingleEvent', 'DontInsert', 'unique names', 'activity names', 'nested generation', 'expanded back',
                   'unattached log', 'underlying counted', 'activity name added', 'trace without instances', 'gap at start', 'gap at end']


def leaves(e):
    if 'UnderlyingEvents' in e.payload:
        return [x for u in e['UnderlyingEvents'] for x in leaves(u)]
    return [e]


def acts_of(e):
    return list(e.payload.get('UnderlyingActivities', []))


def check_abstraction(mon, log, instances, out, strategy, hashes, what, /, **w):
    mon.equal(len(out), len(log), f'{what}: number of traces changed', **w)
    for t, ins, o in zip(log, instances, out):
        want, pos = [], 0
        for s, l, node in [(i.start_pos, i.length, i.node) for i in ins] + [(len(t), 0, None)]:
            if s > pos:
                if strategy.name == 'InsertAllEvents':
                    want += [('event', t[k]) for k in range(pos, s)]
                elif strategy.name == 'InsertAsSingleEvent':
                    want.append(('undefined',))
            if node is not None:
                want.append(('activity', node, [t[k] for k in range(s, s + l)]))
            pos = s + l
        mon.equal(len(o), len(want), f'{what}: wrong number of events', produced=[e[NAME] for e in o], **w)
        for e, x in zip(o, want):
            if x[0] == 'event':
                mon.check(e is x[1] or fx.payloads([[e]]) == fx.payloads([[x[1]]]), f'{what}: an unattached event changed', **w)
            elif x[0] == 'undefined':
                mon.equal(dict(e.payload), {NAME: 'UndefinedActivity'}, f'{what}: the placeholder event is wrong', **w)
            else:
                _, node, evs = x
                mon.equal(e[NAME], node.unique_name() if hashes else node.name, f'{what}: an activity event has the wrong name', **w)
                mon.equal([u.payload for u in e['UnderlyingEvents']], [u.payload for u in evs], f'{what}: the underlying events are wrong', **w)
                mon.check(all(u is not v for u, v in zip(e['UnderlyingEvents'], evs)), f'{what}: underlying events are shared with the log', **w)
                wa = [a for u in evs for a in acts_of(u)] + [node]
                ga = acts_of(e)
                mon.check(len(ga) == len(wa) and all(a is b for a, b in zip(ga, wa)), f'{what}: the underlying activities are wrong', **w)


def random_instances(rng, log, nodes):
    out = []
    longest = rng.choice([5, 5, 5, 14])
    for t in log:
        pos, ins = 0, []
        while pos < len(t):
            if rng.random() < 0.5:
                l = rng.randint(1, min(longest, len(t) - pos))
                ins.append(ActivityInTraceInfo(rng.choice(nodes), pos, l))
                pos += l
            else:
                pos += 1
        out.append(ins)
    return out


def run_case(rng, index, mon):
    names = rep_log(rng)
    log = fx.log_of_payloads(gen.payload_log(rng, names, rich=rng.random() < 0.4), uid=True)
    want_uids = [[e['uid'] for e in t] for t in log]
    ctx = Pipeline(UseExistingLog(), pattern_source(rng, None), DiscoverRepeatsSets(), DiscoverActivities(0))(log)
    nodes = walk(A.activities(ctx))
    cur = log
    ctx = DiscoverActivitiesInTraces()(ctx)
    uniq = [n.unique_name() for n in nodes]
    mon.check(len(uniq) == len(set(uniq)), 'two activities have the same unique name', names=uniq)
    gens = rng.choice([1, 1, 2, 3])
    for g in range(gens):
        if g == 0 and rng.random() < 0.6:
            inst = A.traces_activities(ctx)
        elif nodes:
            inst = random_instances(rng, cur, nodes)
        else:
            inst = [[] for _ in cur]
        strategy = rng.choice(list(UndefinedActivityHandlingStrategy)) if g == gens - 1 and gens < 3 else UndefinedActivityHandlingStrategy.InsertAllEvents
        hashes = rng.random() < 0.5
        mon.event(strategy.name)
        mon.event('unique names' if hashes else 'activity names')
        for t, i in zip(cur, inst):
            if not i:
                mon.event('trace without instances')
            elif i[0].start_pos > 0:
                mon.event('gap at start')
            if i and i[-1].start_pos + i[-1].length < len(t):
                mon.event('gap at end')
        snap, plain_i = fx.snapshot(cur), plain(inst)
        if rng.random() < 0.5:
            out = mon.call(EP.create_new_log_from_activities, cur, inst, use_hashes_as_names=hashes, strategy=strategy)
        else:
            c = PipelinePartResult().with_log(cur).with_trace_activities(inst)
            out = A.log(mon.call(CreateLogFromActivities(strategy, hashes), c, what='CreateLogFromActivities'))
        w = dict(names=fx.names(cur), instances=[[(i.node.name, i.start_pos, i.length) for i in t] for t in inst], strategy=strategy)
        check_abstraction(mon, cur, inst, out, strategy, hashes, f'generation {g}', **w)
        mon.equal(fx.snapshot(cur), snap, 'abstraction changed its input log')
        mon.equal(plain(inst), plain_i, 'abstraction changed the instances')
        # unattached events
        ua = mon.call(EP.create_unattached_events_log, cur, inst)
        mon.event('unattached log')
        wantu = []
        for t, ins in zip(cur, inst):
            cov = {k for i in ins for k in range(i.start_pos, i.start_pos + i.length)}
            wantu.append([t[k].payload for k in range(len(t)) if k not in cov])
        mon.equal([[e.payload for e in t] for t in ua], wantu, 'the unattached events are wrong', **w)
        if any(i.length > 1 for t in inst for i in t):
            mon.distinct(names, plain_i and w['instances'], strategy.name)
            mon.sample((names, w['instances'], strategy.name))
        if strategy.name == 'InsertAllEvents':
            if g:
                mon.event('nested generation')
            got = [[x['uid'] for e in t for x in leaves(e)] for t in out]
            mon.equal(got, want_uids, 'abstraction lost, duplicated or reordered events', **w)
            osnap = fx.snapshot(out)
            back = mon.call(SubstituteUnderlyingEvents(), PipelinePartResult().with_log(out), what='SubstituteUnderlyingEvents')
            mon.event('expanded back')
            mon.equal([[e.payload for e in t] for t in A.log(back)], [[e.payload for e in t] for t in log], 'expanding the abstracted log does not give back the original events', **w)
            mon.equal(fx.snapshot(out), osnap, 'expanding changed the abstracted log')
            mon.event('underlying counted')
            mon.equal(mon.call(EP.calculate_underlying_events_count, out), sum(map(len, want_uids)), 'the number of underlying events is wrong', **w)
            for t in out:
                for e in t:
                    seen = []
                    EP.execute_with_underlying_events(e, lambda x: seen.append(x['uid']))
                    mon.equal(sorted(seen), sorted(x['uid'] for x in leaves(e)), 'not every underlying event was visited once', **w)
                    mon.equal(EP.count_underlying_events(e), len(leaves(e)), 'the number of underlying events is wrong')
        cur = out
    # naming events after their instance
    inst = A.traces_activities(ctx)
    before = fx.payloads(log)
    mon.call(AddActivityNameToAllEvents(), PipelinePartResult().with_log(log).with_trace_activities(inst), what='AddActivityNameToAllEvents')
    mon.event('activity name added')
    for t, ins, b in zip(log, inst, before):
        lab = {k: i.node.unique_name() for i in ins for k in range(i.start_pos, i.start_pos + i.length)}
        mon.equal([e.payload for e in t], [{**p, **({'activity': lab[k]} if k in lab else {})} for k, p in enumerate(b)],
                  'events are not labelled with the activity they belong to', names=names)

"""P46: activities through the pipeline parts of the backend (Rust, through the gRPC service)."""
import re
from collections import Counter

from .. import service as sv, svcmodel as M
from ..service import Steps, enum, flag, names, prepare, text, texts, u32, worker_end, worker_start  # noqa: F401
from .p37 import make_log

ID = 'P46'
LEVEL = 'exploration'
CASES = {'quick': 4500, 'thorough': 40000}
RULE = ('pipelines that discover patterns, activities and their instances with all kinds, strategies, narrowing, filters, levels and event classes, draw both diagrams, build the '
        'abstracted log, run a pipeline per activity, expand it again; several levels at once; discovery until nothing more is found with a pipeline after each round; half of '
        'the parts are written by the Python client; every value that the service sends is compared with the log; non-trivial: at least one instance')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (see P45)']
REQUIRED_EVENTS = ['chain', 'levels', 'until', 'instance', 'no instance', 'unattached', 'narrowed', 'narrowed exactly', 'filtered', 'event class', 'undefined:DontInsert',
                   'undefined:InsertAsSingleEvent', 'undefined:InsertAllEvents', 'activity log', 'other level', 'cleared', 'rounds', 'only at the end', 'nothing of the last round left', 'one level alone', 'adjusted',
                   'level kept apart', 'level of an instance', 'kind:PrimitiveTandemArrays', 'kind:MaximalTandemArrays', 'kind:MaximalRepeats', 'kind:SuperMaximalRepeats', 'kind:NearSuperMaximalRepeats',
                   'written by the client', 'long log', 'two rounds', 'parts of parts', 'mode:FromAllLog',
                   'mode:FromUnattachedSubTraces', 'from what is left', 'pipeline that changes its log']
KINDS = ['PrimitiveTandemArrays', 'MaximalTandemArrays', 'MaximalRepeats', 'SuperMaximalRepeats', 'NearSuperMaximalRepeats']
UNDEF = 'UNDEFINED_ACTIVITY'
PARTS = re.compile(r'\((.*?)\)(?:::|$)', re.S)


def setup(rng, mon):
    al = rng.choice([['a', 'b', 'c', 'd', 'e', 'f'], ['ab_1', 'ab_2', 'cd_1', 'cd_2', 'x_1', 'x_2'], ['приём', 'é', '🚚', 'ß', 'B C', "it's"], ['ab_1', 'ab_2', 'cd_1', 'cd_2', 'x_1', 'x_2']])
    raw = make_log(rng, mon.tier == 'thorough')
    code = {c: al[i % len(al)] for i, c in enumerate(sorted({e for t in raw for e in t}))}
    log = [[code[e] for e in t] for t in raw]
    if rng.random() < 0.05:
        log = log * rng.choice([10, 30])
        mon.event('long log')
    regex = '[a-z]+' if '_' in al[0] and rng.random() < 0.6 else None
    if regex:
        mon.event('event class')
    s = dict(kind=rng.choice(KINDS), strategy=rng.choice(['FromAllTraces', 'FromSingleMergedTrace']), max_len=rng.choice([3, 5, 20]), regex=regex,
             narrow=rng.choice(['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']), filt=rng.choice(['NoFilter', 'DefaultFilter']), min_events=rng.choice([0, 0, 1, 2, 3]),
             level=rng.choice([0, 0, 1, 4]), undef=rng.choice(['DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents']))
    mon.event('kind:' + s['kind'])
    return log, s


def find(s):
    if 'Tandem' in s['kind']:
        c = {'tandem_array_length': u32(s['max_len'])}
    else:
        c = {'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', s['strategy'])}
    if s['regex']:
        c['event_class_regex'] = text(s['regex'])
    return c


def instances(s):
    return {'narrow_activities': enum('ActivityNarrowingKind', s['narrow']), 'min_activity_length': u32(s['min_events']),
            'activity_in_trace_filter_kind': enum('ActivityInTraceFilterKind', s['filt'])}


def undef(s):
    return {'undef_activity_handling_strategy': enum('UndefActivityHandlingStrategyDto', s['undef'])}


def class_of(regex):
    if regex is None:
        return lambda n: n
    r = re.compile(regex)
    return lambda n: m.group() if (m := r.match(n)) else n


def activity_nodes(log, patterns, key):
    """name -> classes of every activity that patterns ([start, end) per trace) give rise to."""
    out = {}
    for t, row in zip(log, patterns):
        for s, e in row:
            ks = [key(x) for x in t[s:e]]
            out.setdefault(frozenset(ks), '::'.join(f'({k})' for k in ks))
    return {n: set(c) for c, n in out.items()}


def diagram(mon, log, value, colours, what, w):
    """Rectangles of a full diagram -> per trace [(name or None, start, length)]."""
    rows = sv.rectangles(value)
    mon.equal(len(rows), len(log), f'{what}: one row per trace', **w)
    out = []
    for t, r in zip(log, rows):
        at, row = 0, []
        for c, s, n, name in r:
            mon.check(s == at and n > 0, f'{what}: the rectangles follow one another', trace=t, row=r, **w)
            at = s + n
            if name == UNDEF:
                mon.equal(c, M.BLACK, f'{what}: what belongs to no activity is black', row=r, **w)
                mon.check(not row or row[-1][0] is not None, f'{what}: what belongs to no activity is one rectangle', row=r, **w)
                mon.event('unattached')
                row.append((None, s, n))
            else:
                mon.check(c == M.BLACK or colours.fits(name, c), f'{what}: one colour per activity, one activity per colour', name=name, colour=c, **w)
                mon.event('instance')
                row.append((name, s, n))
        mon.equal(at, len(t), f'{what}: the rectangles cover the trace', trace=t, row=r, **w)
        out.append(row)
    return out


def short_diagram(mon, full, value, colours, w):
    rows = sv.rectangles(value)
    mon.equal([[(s, n, x if x != UNDEF else None) for _, s, n, x in r] for r in rows], [[(i, 1, x) for i, (x, _, _) in enumerate(r)] for r in full],
              'the short diagram has one step per rectangle of the full one', **w)
    for r in rows:
        for c, _, _, x in r:
            mon.check(c == M.BLACK if x == UNDEF else c == M.BLACK or colours.fits(x, c), 'the short diagram has the colours of the full one', name=x, colour=c, **w)


def abstract(log, rows, kind):
    """Abstracted log as [(name, leaves, direct parts or None for an event taken over)]; events of log are such triples."""
    out = []
    for t, r in zip(log, rows):
        row = []
        for name, s, n in r:
            part = t[s:s + n]
            if name is not None:
                row.append((name, [x for e in part for x in e[1]], part))
            elif kind == 'InsertAsSingleEvent':
                row.append((UNDEF, [UNDEF], None))
            elif kind == 'InsertAllEvents':
                row += part
        out.append(row)
    return out


def plain(log):
    return [[(n, [n], None) for n in t] for t in log]


def judge_chain(mon, log, s, nodes, rows, w):
    """Instances against the activities that the patterns give rise to."""
    key = class_of(s['regex'])
    tops = {n for n, c in nodes.items() if not any(c < d for d in nodes.values())}
    for t, r in zip(log, rows):
        ks = [key(x) for x in t]
        for name, a, n in r:
            if name is None:
                continue
            mon.check(name in nodes, 'an instance is named after an activity', name=name, activities=nodes, **w)
            here, cls = set(ks[a:a + n]), nodes[name]
            mon.check(here <= cls, 'an instance has only events of its activity', trace=t, instance=(name, a, n), **w)
            over = [x for x in tops if here <= nodes[x]]
            mon.check(bool(over), 'an instance lies in a top activity', trace=t, instance=(name, a, n), **w)
            if s['narrow'] in ('NarrowUp', 'NarrowDown'):
                if name not in tops:
                    mon.event('narrowed')
                if len(over) == 1:
                    mon.event('narrowed exactly')
                    best = min(len(c) for c in nodes.values() if here <= c)
                    mon.equal(len(cls), best, 'an instance is narrowed to the smallest activity with all its events', trace=t, instance=(name, a, n), activities=nodes, **w)
            else:
                mon.check(name in tops, 'an instance that is not narrowed belongs to a top activity', trace=t, instance=(name, a, n), activities=nodes, **w)
                if s['filt'] == 'NoFilter' and a + n < len(t):
                    more = here | {ks[a + n]}
                    mon.check(not any(more <= nodes[x] and len(nodes[x]) >= len(cls) for x in tops), 'an instance extends as far as an activity allows', trace=t,
                              instance=(name, a, n), activities=nodes, **w)
            if s['filt'] == 'DefaultFilter':
                mon.event('filtered')
                mon.check(len(cls) >= s['min_events'] and n > len(cls) // 2, 'a kept instance is large enough', trace=t, instance=(name, a, n), minimum=s['min_events'], **w)
        if s['filt'] == 'NoFilter':
            covered = {i for name, a, n in r if name is not None for i in range(a, a + n)}
            mon.equal(covered, {i for i, k in enumerate(ks) if any(k in nodes[x] for x in tops)}, 'without a filter exactly the events of the activities are covered', trace=t,
                      activities=nodes, **w)


def of_each(results, key='names_event_log'):
    return sorted(sv.names_of(v[key]) for _, v in results)


def by_name(pairs):
    out = {}
    for name, leaves in pairs:
        out.setdefault(name, []).append(leaves)
    return sorted(out.values())


def chain(rng, mon, log, s):
    w = dict(log=log, settings=s)
    reg = {'event_class_regex': text(s['regex'])} if s['regex'] else {}
    each = Steps([('ask', 'GetNamesEventLog', {}, ['names_event_log'])])
    change = rng.random() < 0.4
    if change:
        mon.event('pipeline that changes its log')
        each.append(('do', *rng.choice([('ApplyClassExtractor', {'event_class_regex': text('.'), 'regex': text('.*')}), ('AddArtificialStartEndEvents', {}),
                                        ('FilterEventsByRegex', {'regex': text('.*')}), ('FilterLogByVariants', {}), ('FilterTracesByEventsCount', {'events_count': u32(2)})])))
    look = ('ask', 'GetNamesEventLog', {}, ['names_event_log'])
    ask_level = s['level'] if rng.random() < 0.8 else s['level'] + 1
    src = lambda x, lv: {'activities_logs_source': enum('ActivitiesLogsSourceDto', x), 'activity_level': u32(lv), 'pipeline': each}
    steps = [('do', 'UseNamesEventLog', {}),
             ('do', 'Find' + s['kind'], find(s)), ('get', 'patterns'), ('get', 'hashes_event_log'),
             ('do', 'DiscoverActivities', {'activity_level': u32(s['level']), **reg}),
             ('do', 'DiscoverActivitiesInstances', instances(s)),
             ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log']), ('ask', 'DrawShortActivitiesDiagram', {}, ['colors_event_log']),
             ('ask', 'GetEventLogInfo', {}, ['event_log_info']),
             ('do', 'ExecuteWithEachActivityLog', src('TracesActivities', ask_level)),
             ('ask', 'GetEventLogInfo', {}, ['event_log_info']), look,
             ('do', 'CreateLogFromActivities', undef(s)), ('ask', 'GetNamesEventLog', {}, ['names_event_log']),
             ('ask', 'GetUnderlyingEventsCount', {}, ['underlying_events_count']),
             ('do', 'ExecuteWithEachActivityLog', src('Log', ask_level)),
             ('ask', 'GetEventLogInfo', {}, ['event_log_info']), look,
             ('do', 'SubstituteUnderlyingEvents', {}), ('ask', 'GetNamesEventLog', {}, ['names_event_log']), ('ask', 'GetUnderlyingEventsCount', {}, ['underlying_events_count'])]
    cleared = rng.random() < 0.3
    if cleared:
        steps += [('do', 'ClearActivities', {}), rng.choice([('get', 'patterns'), ('do', 'DrawFullActivitiesDiagram', {}), ('do', 'CreateLogFromActivities', undef(s)),
                                                            ('do', 'DiscoverActivitiesInstances', instances(s))])]
    a = sv.S.execute(steps, {'names_event_log': names(log)}, client=rng)
    if cleared:
        mon.event('cleared')
        mon.check(a.error in ('patterns', 'trace_activities', 'activities'), 'after clearing there are no activities', final=a.final, **w)
    else:
        mon.check(a.error is None and a.guid, 'a valid pipeline succeeds', final=a.final, **w)
        sv.S.drop(a.guid)
    r = list(a.results)
    patterns = [[(x['start'], x['end']) for x in t['sub_arrays']] for t in r.pop(0)[1]['patterns']['traces_sub_arrays']['traces_sub_arrays']]
    mon.equal(len(patterns), len(log), 'one list of patterns per trace', **w)
    key = class_of(s['regex'])
    hashed = [t['events'] for t in r.pop(0)[1]['hashes_event_log']['hashes_log']['log']['traces']]
    pairs = {(h, key(e)) for x, t in zip(hashed, log) for h, e in zip(x, t)}
    mon.check([len(t) for t in hashed] == [len(t) for t in log] and len({h for h, _ in pairs}) == len({e for _, e in pairs}) == len(pairs),
              'finding patterns leaves the hashes of the event classes', pairs=pairs, **w)
    nodes = activity_nodes(log, patterns, key)
    colours = M.Colours()
    rows = diagram(mon, log, r.pop(0)[1]['colors_event_log'], colours, 'the full diagram', w)
    short_diagram(mon, rows, r.pop(0)[1]['colors_event_log'], colours, w)
    judge_chain(mon, log, s, nodes, rows, w)
    info = lambda x: (sum(map(len, x)), len(x), len({e for t in x for e in t}))
    got_info = lambda v: tuple(v['event_log_info']['event_log_info'][k] for k in ('events_count', 'traces_count', 'event_classes_count'))
    mon.equal(got_info(r.pop(0)[1]), info(log), 'discovering activities does not change the log', **w)
    found = [(name, t[i:i + n]) for t, row in zip(log, rows) for name, i, n in row if name is not None]
    logs = by_name(found) if ask_level == s['level'] else []
    if ask_level != s['level']:
        mon.event('other level')
    mon.event('activity log', len(logs))
    mon.equal(of_each(r[:len(logs)]), logs, 'one log per activity of the level with exactly its instances', **w)
    del r[:len(logs)]
    mon.check(bool(r) and 'event_log_info' in r[0][1], 'the pipeline is executed once per activity', left=r, **w)
    mon.equal(got_info(r.pop(0)[1]), info(log), 'the pipelines of the activities do not change the log', **w)
    mon.equal(sv.names_of(r.pop(0)[1]['names_event_log']), log, 'the pipelines of the activities do not change the events of the log', pipeline=each, **w)
    new = abstract(plain(log), rows, s['undef'])
    mon.event('undefined:' + s['undef'])
    mon.equal(sv.names_of(r.pop(0)[1]['names_event_log']), [[e[0] for e in t] for t in new], 'the abstracted log: one event per instance, the rest as asked for', **w)
    total = sum(len(e[1]) for t in new for e in t)
    mon.equal(r.pop(0)[1]['underlying_events_count'], {'uint32': total}, 'the number of underlying events', **w)
    mon.check(f'Number of underlying events: {total}' in a.logs, 'the number of underlying events is logged', logs=a.logs, **w)
    logs = by_name((e[0], e[1]) for t in new for e in t if e[2] is not None)
    mon.equal(of_each(r[:len(logs)]), logs, 'one log per activity of the abstracted log with exactly what it stands for', **w)
    del r[:len(logs)]
    mon.check(bool(r) and 'event_log_info' in r[0][1], 'the pipeline is executed once per activity', left=r, **w)
    mon.equal(got_info(r.pop(0)[1]), info([[e[0] for e in t] for t in new]), 'the pipelines of the activities do not change the abstracted log', **w)
    mon.equal(sv.names_of(r.pop(0)[1]['names_event_log']), [[e[0] for e in t] for t in new], 'the pipelines of the activities do not change the events of the abstracted log',
              pipeline=each, **w)
    mon.equal(sv.names_of(r.pop(0)[1]['names_event_log']), [[x for e in t for x in e[1]] for t in new], 'expanding gives the underlying events in order', **w)
    mon.equal(r.pop(0)[1]['underlying_events_count'], {'uint32': total}, 'expanding keeps the number of underlying events', **w)
    mon.equal(r, [], 'nothing else is sent', **w)
    mon.event('chain')
    if found:
        mon.distinct(log, rows)
        mon.sample({'log': log, 'diagram': rows})
    else:
        mon.event('no instance')


def several(s, regexes, low, mode):
    return ('do', 'DiscoverActivitiesForSeveralLevels', {
        'event_classes_regexes': texts(regexes), 'patterns_kind': enum('PatternsKindDto', s['kind']), 'narrow_activities': enum('ActivityNarrowingKind', s['narrow']),
        'activity_level': u32(s['level']), 'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', s['strategy']), 'tandem_array_length': u32(s['max_len']),
        'adjusting_mode': enum('AdjustingMode', mode), 'events_count': u32(low), 'min_activity_length': u32(s['min_events']),
        'activity_in_trace_filter_kind': enum('ActivityInTraceFilterKind', s['filt'])})


def levels(rng, mon, log, s):
    regexes = [rng.choice(['.*', '[a-z]+', '[a-z]', 'a', 'zz+']) for _ in range(rng.choice([1, 2, 2, 3]))]
    low = rng.choice([0, 0, 1, 2, 4])
    mode = rng.choice(['FromAllLog', 'FromUnattachedSubTraces'])
    mon.event('mode:' + mode)
    w = dict(log=log, settings=s, regexes=regexes, low=low, mode=mode)
    each = Steps([('ask', 'GetNamesEventLog', {}, ['names_event_log'])])
    rows_of, known, per_level = [], set(), []
    for k in range(len(regexes) - 1, -1, -1):
        steps = [('do', 'UseNamesEventLog', {}), several(s, regexes[k:], low, mode), ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])]
        count = len(regexes) - k
        for i in range(count + 1):
            steps.append(('do', 'ExecuteWithEachActivityLog', {'activities_logs_source': enum('ActivitiesLogsSourceDto', 'TracesActivities'),
                                                                'activity_level': u32(s['level'] + i), 'pipeline': each}))
            steps.append(('ask', 'GetEventLogInfo', {}, ['event_log_info']))
        a = sv.S.get(steps, {'names_event_log': names(log)}, client=rng)
        r = list(a.results)
        rows = diagram(mon, log, r.pop(0)[1]['colors_event_log'], M.Colours(), 'several levels', w)
        per, cur = [], []
        for _, v in r:
            if 'event_log_info' in v:
                per.append(cur)
                cur = []
            else:
                cur.append(sv.names_of(v['names_event_log']))
        mon.equal(len(per), count + 1, 'every level is asked', **w)
        found = sorted(tuple(t[i:i + n]) for t, row in zip(log, rows) for name, i, n in row if name is not None)
        mon.equal(sorted(tuple(t) for lv in per[:count] for one in lv for t in one), found, 'the instances of all levels are all instances', **w)
        mon.equal(per[count], [], 'there is no level beyond the last', **w)
        if count > 1 and sum(bool(x) for x in per) > 1:
            mon.event('level kept apart')
        rows_of.append(rows)
        key = class_of(regexes[k])
        old = rows_of[-2] if count > 1 else [[] for _ in log]
        free = log if count == 1 or mode == 'FromAllLog' else [[e for name, i, n in r for e in t[i:i + n] if name is None] for t, r in zip(log, old)]
        b = sv.S.get([('do', 'UseNamesEventLog', {}), ('do', 'Find' + s['kind'], find(dict(s, regex=regexes[k]))), ('get', 'patterns')],
                     {'names_event_log': names(free)}, client=rng)
        per_level.append(set(activity_nodes(free, [[(x['start'], x['end']) for x in t['sub_arrays']]
                                                   for t in b.results[0][1]['patterns']['traces_sub_arrays']['traces_sub_arrays']], key)))
        known |= per_level[-1]
        whole = [(x[0], tuple(t[x[1]:x[1] + x[2]])) for t, row in zip(log, rows) for x in row if x[0] is not None]
        for i, lv in enumerate(per_level):
            at_level = Counter(tuple(t) for one in per[i] for t in one)
            may = Counter(c for n, c in whole if n in lv)
            must = Counter(c for n, c in whole if n in lv and not any(n in o for o in per_level if o is not lv))
            mon.event('level of an instance', len(must))
            mon.check(at_level <= may and must <= at_level, 'an instance belongs to the level that found its activity', index=i, may=may, must=must, at=at_level, **w)
        if free is not log and any(free):
            mon.event('from what is left')
        for t, before, now in zip(log, old, rows):
            before = [x for x in before if x[0] is not None]
            mon.check(all(x in now for x in before), 'a further level keeps every instance', trace=t, before=before, after=now, **w)
            gaps, at = [], 0
            for _, i, n in before + [(None, len(t), 0)]:
                gaps.append((at, i))
                at = i + n
            for x in now:
                if x[0] is None or x in before:
                    continue
                mon.event('adjusted')
                mon.check(x[0] in known, 'an added instance belongs to an activity of this level or a level before', trace=t, added=x, activities=known, **w)
                mon.check(any(p <= x[1] and x[1] + x[2] <= q and q - p >= low for p, q in gaps), 'a level adds instances only where there is room', trace=t, added=x, before=before, **w)
                here = {key(e) for e in t[x[1]:x[1] + x[2]]}
                mon.check(here <= set(PARTS.findall(x[0])), 'an instance of a level has only event classes of its activity', trace=t, added=x, classes=here, **w)
                if s['filt'] == 'DefaultFilter':
                    size = len(set(PARTS.findall(x[0])))
                    mon.check(size >= s['min_events'] and x[2] > size // 2, 'a kept instance of a level is large enough', trace=t, added=x, **w)
        if count == 1 and low == 0:
            mon.event('one level alone')
            s1 = dict(s, regex=regexes[k])
            steps = [('do', 'UseNamesEventLog', {}), ('do', 'Find' + s['kind'], find(s1)),
                     ('do', 'DiscoverActivities', {'activity_level': u32(s['level']), 'event_class_regex': text(regexes[k])}),
                     ('do', 'DiscoverActivitiesInstances', instances(s)), ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])]
            b = sv.S.get(steps, {'names_event_log': names(log)}, client=rng)
            alone = diagram(mon, log, b.results[0][1]['colors_event_log'], M.Colours(), 'one level', w)
            mon.equal(rows, alone, 'a single level finds what the separate parts find', **w)
    mon.event('levels')
    if any(x[0] is not None for row in rows_of[-1] for x in row):
        mon.distinct(log, rows_of[-1])


def until(rng, mon, log, s):
    after = Steps([('ask', 'GetNamesEventLog', {}, ['names_event_log']), ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])])
    at_end = rng.random() < 0.25
    conf = {'patterns_kind': enum('PatternsKindDto', s['kind']), 'narrow_activities': enum('ActivityNarrowingKind', s['narrow']), 'activity_level': u32(s['level']),
            'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', s['strategy']), **undef(s), 'tandem_array_length': u32(s['max_len']),
            'adjusting_mode': enum('AdjustingMode', 'FromAllLog'), 'events_count': u32(0), 'min_activity_length': u32(s['min_events']),
            'activity_in_trace_filter_kind': enum('ActivityInTraceFilterKind', s['filt']), 'pipeline': after, 'execute_only_on_last_extraction': flag(at_end)}
    if s['regex']:
        conf['event_class_regex'] = text(s['regex'])
    w = dict(log=log, settings=s, at_end=at_end)
    steps = [('do', 'UseNamesEventLog', {}), ('do', 'DiscoverActivitiesUntilNoMore', conf), ('ask', 'GetNamesEventLog', {}, ['names_event_log']),
             ('ask', 'GetUnderlyingEventsCount', {}, ['underlying_events_count']), ('do', 'SubstituteUnderlyingEvents', {}), ('ask', 'GetNamesEventLog', {}, ['names_event_log'])]
    a = sv.S.get(steps, {'names_event_log': names(log)}, client=rng)
    r = [v for _, v in a.results]
    counts = [int(m.group(1)) for x in a.logs if (m := re.match(r'Discovered (\d+) activities instances$', x))]
    final, total, leaves = r[-3:]
    rounds = r[:-3]
    mon.equal(len(rounds) % 2, 0, 'the pipeline after a round is executed as a whole', **w)
    colours, cur = M.Colours(), plain(log)
    if at_end:
        mon.event('only at the end')
        mon.check(len(rounds) <= 2, 'the pipeline is executed once at most', **w)
        if rounds:
            shown = sv.names_of(rounds[0]['names_event_log'])
            rows = diagram(mon, shown, rounds[1]['colors_event_log'], colours, 'the last round', w)
            mon.equal(counts[-1], sum(x[0] is not None for row in rows for x in row), 'the number of instances is logged', counts=counts, **w)
            mon.check(counts[-1] and all(x[2] == 1 for row in rows for x in row if x[0] is not None), 'the last round finds only single events', rows=rows, **w)
            mon.equal(sv.names_of(final['names_event_log']), [[e[0] for e in t] for t in abstract(plain(shown), rows, s['undef'])], 'the log after the last round', **w)
        ends = sv.names_of(leaves['names_event_log'])
    else:
        for i in range(0, len(rounds), 2):
            mon.event('rounds')
            shown = sv.names_of(rounds[i]['names_event_log'])
            mon.equal(shown, [[e[0] for e in t] for t in cur], 'a round works on the abstracted log of the round before', turn=i // 2, **w)
            rows = diagram(mon, shown, rounds[i + 1]['colors_event_log'], colours, 'a round', w)
            mon.equal(counts[i // 2], sum(x[0] is not None for row in rows for x in row), 'the number of instances is logged', counts=counts, **w)
            if i:
                mon.event('two rounds')
            before = sum(map(len, cur))
            cur = abstract(cur, rows, s['undef'])
            same = sum(map(len, cur)) == before
            mon.equal(same, i + 2 >= len(rounds) and len(counts) == len(rounds) // 2, 'rounds go on exactly as long as the log becomes shorter', counts=counts, **w) \
                if counts[-1] else None
            if any(e[2] and any(x[2] for x in e[2]) for t in cur for e in t):
                mon.event('parts of parts')
        mon.equal(len(counts), len(rounds) // 2 + (counts[-1] == 0), 'every round reports once, only the last one may find nothing', counts=counts, **w)
        mon.equal(sv.names_of(final['names_event_log']), [[e[0] for e in t] for t in cur], 'the log after the last round', **w)
        ends = [[x for e in t for x in e[1]] for t in cur]
        mon.equal(sv.names_of(leaves['names_event_log']), ends, 'expanding gives the original events in order', **w)
    mon.equal(total['underlying_events_count'], {'uint32': sum(map(len, ends))}, 'the number of underlying events', **w)
    if s['undef'] == 'InsertAllEvents':
        mon.equal(ends, log, 'keeping all events keeps the whole log', **w)
    if rng.random() < 0.3:
        mon.event('nothing of the last round left')
        a = sv.S.execute(steps[:2] + [('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])], {'names_event_log': names(log)}, client=rng)
        mon.check(a.error is not None and len(a.results) == len(rounds), 'no instances of the last round are shown on the log made from them', final=a.final, **w)
    mon.event('undefined:' + s['undef'])
    mon.event('until')
    if counts[0]:
        mon.distinct(log, counts, repr(rounds)[:2000])


def run_case(rng, index, mon):
    log, s = setup(rng, mon)
    (chain if index % 4 < 2 else levels if index % 4 == 2 else until)(rng, mon, log, s)

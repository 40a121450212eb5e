"""P45: the request protocol of the backend: parts, messages, stored results (Rust, through the gRPC service)."""


from .. import gen, svcmodel as M, service as sv
from ..service import Steps, flag, names, prepare, real, text, texts, u32, worker_end, worker_start  # noqa: F401

ID = 'P45'
LEVEL = 'exploration'
CASES = {'quick': 4500, 'thorough': 60000}
RULE = ('histories of requests against the real service on a tokio runtime: pipelines of up to nine random parts (nested ones, values asked for in between, settings that are '
        'missing, unknown, or of other parts, invalid patterns, unknown keys), several at the same time with slow readers and readers that leave, results kept, asked for and '
        'dropped in any order, parts that panic; half of the parts that the Python client has are written by it; every message is compared with a model of the parts; '
        'non-trivial: a pipeline of at least three parts that succeeds and reports a value')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins: tonic by the traits it declares, prost by an encoder of the wire format, fancy-regex by regex; '
               'the runtime and its channels are the real tokio', 'the event log of the model parts has no hierarchy of activities (see P46)']
REQUIRED_EVENTS = ['succeeded', 'failed', 'nested', 'written by the client', 'together', 'left early', 'slow reader', 'kept', 'asked later', 'dropped', 'dropped twice',
                   'asked after drop', 'missing setting', 'foreign setting', 'unknown key', 'one of several keys missing', 'bad pattern', 'missing log', 'panic answered', 'wrong type', 'value:graph',
                   'value:names_event_log', 'value:event_log_info', 'value:hashes_event_log', 'value:colors_event_log', 'value:underlying_events_count', 'value:event_log',
                   'value:path', 'inherited context']
NAMES = ['a', 'b', 'c', 'ab', 'a b', 'A', '', 'é', 'приём', '🚚', 'x' * 40, 'A\nB', "it's", '(a', '1', '22']
GOOD = ['a', '^a', 'a|b', '.*', '[ab]+', r'\d', r'^[a-c]$', 'zzz', '', 'b$', r'\d+', 'x{3}']
BAD = ['(', '[a', '*', 'a(b']
SIMPLE = ['UseNamesEventLog', 'GetNamesEventLog', 'GetEventLogInfo', 'GetHashesEventLog', 'DiscoverDirectlyFollowsGraph', 'FilterLogByVariants', 'AddArtificialStartEndEvents',
          'AddArtificialStartEvents', 'AddArtificialEndEvents', 'TracesDiversityDiagram', 'GetUnderlyingEventsCount', 'SubstituteUnderlyingEvents', 'ClearActivities']
WITH = ['FilterEventsByName', 'FilterEventsByRegex', 'FilterTracesByEventsCount', 'ApplyClassExtractor', 'DrawPlacementOfEventByName', 'DrawPlacementOfEventsByRegex',
        'ReadLogFromXes', 'WriteLogToXes']
REPORT = {'GetNamesEventLog': 'names_event_log', 'GetEventLogInfo': 'event_log_info', 'GetHashesEventLog': 'hashes_event_log', 'DiscoverDirectlyFollowsGraph': 'graph',
          'TracesDiversityDiagram': 'colors_event_log', 'DrawPlacementOfEventByName': 'colors_event_log', 'DrawPlacementOfEventsByRegex': 'colors_event_log',
          'GetUnderlyingEventsCount': 'underlying_events_count'}
NOISE = {'no_such_setting': u32(3), 'event_name': text('a'), 'regex': text('a'), 'events_count': u32(1), 'tolerance': real(0.5), 'activity_level': u32(0),
         'narrow_activities': sv.enum('ActivityNarrowingKind', 'NoSuchValue'), 'patterns_kind': sv.enum('NoSuchEnum', 'x'), 'event_classes_regexes': texts(['a', '(']),
         'terminate_on_unreplayable_traces': flag(True)}


def settings(rng, name, mon, wild):
    """The settings of a part; wild: now and then something is wrong with them."""
    pattern = lambda: text(rng.choice(BAD if wild and rng.random() < 0.2 else GOOD))
    c = {'FilterEventsByName': lambda: {'event_name': text(rng.choice(NAMES))},
         'FilterEventsByRegex': lambda: {'regex': pattern()},
         'FilterTracesByEventsCount': lambda: {'events_count': u32(rng.choice([0, 1, 2, 3, 5, 2 ** 32 - 1]))},
         'ApplyClassExtractor': lambda: {'event_class_regex': pattern(), 'regex': pattern()},
         'DrawPlacementOfEventByName': lambda: {'event_name': text(rng.choice(NAMES))},
         'DrawPlacementOfEventsByRegex': lambda: {'regex': pattern()},
         'WriteLogToXes': lambda: {'path': text('no/such/folder/log.xes')}}.get(name, dict)()
    if any('string' in v and v['string'] in BAD for v in c.values()):
        mon.event('bad pattern')
    if wild and c and rng.random() < 0.12:
        del c[rng.choice(sorted(c))]
        mon.event('missing setting')
    if rng.random() < 0.12:
        k = rng.choice(sorted(NOISE))
        if k not in c and not (k in ('regex', 'event_name', 'events_count') and name in WITH):
            c[k] = NOISE[k]
            mon.event('foreign setting')
    return c


def part(rng, mon, wild, depth):
    r = rng.random()
    if r < 0.13:
        k = rng.choice(['names_event_log', 'event_log_info', 'hashes_event_log', 'graph', 'colors_event_log', 'underlying_events_count', 'event_log', 'path', 'colors_holder']
                       + (M.OTHER_KEYS + M.UNKNOWN if wild else []))
        if k in M.UNKNOWN:
            mon.event('unknown key')
        return ('get', k)
    if r < 0.23 and depth < 3:
        mon.event('nested')
        inner = Steps(part(rng, mon, wild, depth + 1) for _ in range(rng.choice([0, 1, 2, 3])))
        conf = {'pipeline': inner}
        if wild and rng.random() < 0.1:
            conf = {}
            mon.event('missing setting')
        return ('do', 'ExecuteFrontendPipeline', conf)
    name = rng.choice(SIMPLE * 2 + [w for w in WITH if wild or w not in ('ReadLogFromXes', 'WriteLogToXes')])
    if name == 'UseNamesEventLog' and not wild and rng.random() < 0.5:
        name = 'GetNamesEventLog'
    conf = settings(rng, name, mon, wild)
    if name in REPORT and rng.random() < 0.6:
        keys = [REPORT[name]]
        if rng.random() < 0.2:
            keys += rng.sample(['event_log', 'colors_holder', 'names_event_log'], rng.randint(1, 2))
            keys = list(dict.fromkeys(keys))
            rng.shuffle(keys)
        if wild and rng.random() < 0.25:
            keys.insert(rng.randint(0, len(keys)), rng.choice(M.OTHER_KEYS + M.UNKNOWN + [k for k in REPORT.values() if k not in keys]))
            mon.event('one of several keys missing')
        return ('ask', name, conf, keys)
    return ('do', name, conf)


def pipeline(rng, mon, wild):
    log = [[rng.choice(NAMES[:rng.randint(1, len(NAMES))]) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))] for _ in range(rng.choice([0, 1, 2, 3, 6]))] \
        if rng.random() < 0.7 else gen.names_log(rng, max_traces=6, max_len=10)
    initial = {'names_event_log': names(log)}
    steps = [('do', 'UseNamesEventLog', {})]
    if wild and rng.random() < 0.1:
        initial.pop('names_event_log')
        mon.event('missing log')
    if wild and rng.random() < 0.1:
        steps = []
        mon.event('missing log')
    if rng.random() < 0.3:
        initial['path'] = text(rng.choice(['no/such/file.xes', '/no/such/é.xes', '', 'é.xes']))
    if rng.random() < 0.15:
        initial[rng.choice(['event_name', 'regex'])] = text('a')
    steps += [part(rng, mon, wild, 0) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8]))]
    return steps, initial


def count(mon, steps, failed):
    n = sum(1 + (len(p[2].get('pipeline', ())) if p[0] == 'do' else 0) for p in steps)
    if n >= 3 and not failed and any(p[0] != 'do' for p in steps):
        mon.distinct(repr((steps,)))


def ask_later(rng, mon, guid, ctx, colours, w):
    keys = rng.sample(M.KEYS, rng.randint(1, 4)) + ([rng.choice(M.UNKNOWN)] if rng.random() < 0.2 else [])
    for k in keys:
        got = sv.S.value(guid, k)
        mon.event('asked later')
        if k in M.UNKNOWN:
            mon.equal(got, {'error': 'Failed to find key for key name'}, 'asking a result for an unknown key', **w)
        elif k not in ctx:
            mon.equal(got, {'error': 'Failed to find context value for key'}, 'asking a result for a value that is not there', key=k, **w)
        elif k in ('event_log', 'colors_holder', 'event_name', 'regex'):
            mon.equal(got, {'error': 'Can not convert context value to grpc model'}, 'asking a result for a value without a form on the wire', key=k, **w)
        else:
            mon.check('value' in got, 'a value of a kept result is sent', key=k, answer=got, **w)
            M.judge_value(mon, k, got['value'], ctx[k], colours, 'a kept result', **w)


def single(rng, mon, kept):
    wild = rng.random() < 0.5
    steps, initial = pipeline(rng, mon, wild)
    opts, prefix = {}, None
    if rng.random() < 0.12:
        prefix = opts['keep'] = rng.choice([0, 1, 2, 3, 5, 8])
        mon.event('left early')
    if rng.random() < 0.05:
        opts['pause_us'] = 300
        mon.event('slow reader')
    a = sv.S.execute(steps, initial, client=rng, **opts)
    ctx, failed, colours = M.judge(mon, a, steps, initial, prefix=prefix)
    count(mon, steps, failed)
    if a.guid:
        mon.check(a.guid not in kept, 'every result has an id of its own', guid=a.guid)
        kept[a.guid] = (ctx, colours, dict(pipeline=steps, initial=initial))
        mon.event('kept')


def together(rng, mon, kept):
    runs = []
    for _ in range(rng.randint(2, 6)):
        steps, initial = pipeline(rng, mon, rng.random() < 0.3)
        o = {}
        if rng.random() < 0.2:
            o['keep'] = rng.choice([0, 1, 3, 6])
            mon.event('left early')
        if rng.random() < 0.3:
            o['pause_us'] = rng.choice([50, 200])
            mon.event('slow reader')
        runs.append((steps, initial, o))
    mon.event('together')
    for a, (steps, initial, o) in zip(sv.S.together(runs, client=rng), runs):
        ctx, failed, colours = M.judge(mon, a, steps, initial, 'pipelines at the same time', prefix=o.get('keep'))
        count(mon, steps, failed)
        if a.guid:
            mon.check(a.guid not in kept, 'every result has an id of its own', guid=a.guid)
            kept[a.guid] = (ctx, colours, dict(pipeline=steps, initial=initial))
            mon.event('kept')


def broken(rng, mon):
    """Requests that the backend cannot carry out at all: they still get exactly one final result, which is an error."""
    steps, initial = pipeline(rng, mon, False)
    k = rng.choice(['part', 'initial', 'type', 'todo'])
    if k == 'part':
        steps.insert(rng.randint(0, len(steps)), rng.choice([('do', 'NoSuchPart', {}), ('ask', 'NoSuchPart', {}, ['event_log'])]))
    elif k == 'initial':
        initial['no_such_key'] = u32(1)
    elif k == 'type':
        steps.append(rng.choice([('do', 'FilterTracesByEventsCount', {'events_count': text('3')}), ('do', 'FilterEventsByName', {'event_name': u32(3)})]))
        mon.event('wrong type')
    else:
        initial['event_log_info'] = {'event_log_info': {'events_count': 1, 'traces_count': 1, 'event_classes_count': 1}}
    a = sv.S.execute(steps, initial, allow=True)
    mon.check(a.ended and bool(a.messages) and 'finalResult' in a.messages[-1], 'a request that cannot be carried out gets a final result', kind=k,
              messages=a.messages[-3:], pipeline=steps, initial=initial)
    mon.equal(sum('finalResult' in m for m in a.messages), 1, 'there is one final result', kind=k)
    mon.check(a.error is not None, 'a request that cannot be carried out ends with an error', kind=k, final=a.final, pipeline=steps, initial=initial)
    if a.panics:
        mon.event('panic answered')


def inherited(rng, mon):
    """A part that needs a setting does not take it from the context, and the context does not take settings."""
    log = [['a', 'b'], ['b', 'a', 'a']]
    steps = [('do', 'UseNamesEventLog', {}), ('do', 'FilterEventsByName', {'event_name': text('b')}), ('get', 'event_name')]
    a = sv.S.execute(steps, {'names_event_log': names(log)})
    M.judge(mon, a, steps, {'names_event_log': names(log)}, 'settings and context')
    steps = [('do', 'UseNamesEventLog', {}), ('do', 'FilterEventsByName', {}), ('get', 'event_name')]
    initial = {'names_event_log': names(log), 'event_name': text('b')}
    a = sv.S.execute(steps, initial)
    M.judge(mon, a, steps, initial, 'settings and context')
    mon.event('inherited context')


def run_case(rng, index, mon):
    if rng.random() < 0.02:
        inherited(rng, mon)
    kept, gone = {}, []
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        if r < 0.55:
            single(rng, mon, kept)
        elif r < 0.7:
            together(rng, mon, kept)
        elif r < 0.8:
            broken(rng, mon)
        if kept and rng.random() < 0.6:
            g = rng.choice(sorted(kept))
            ask_later(rng, mon, g, *kept[g])
        if kept and rng.random() < 0.3:
            g = rng.choice(sorted(kept))
            mon.equal(sv.S.drop(g), {'done': True}, 'a kept result can be dropped', guid=g)
            mon.event('dropped')
            del kept[g]
            gone.append(g)
        if gone and rng.random() < 0.4:
            g = rng.choice(gone)
            mon.equal(sv.S.value(g, 'names_event_log'), {'error': 'Failed to get context for guid'}, 'a dropped result is gone', guid=g)
            mon.event('asked after drop')
            got = sv.S.drop(g)
            mon.equal(got.get('status'), 'NotFound', 'a result is dropped once', answer=got, guid=g)
            mon.event('dropped twice')
    for g in sorted(kept):
        ask_later(rng, mon, g, *kept[g])
        mon.equal(sv.S.drop(g), {'done': True}, 'a kept result can be dropped', guid=g)
    if index < 3:
        mon.sample({'kept': len(kept), 'dropped': len(gone)})

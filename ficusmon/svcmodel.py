"""What the parts that work on event names must do: a model of the context and of the messages of a run."""
import re
from collections import Counter

from . import service as sv

BLACK = (0, 0, 0)


class Fail(Exception):
    pass


class Other:
    """A value that is there, but has no form on the wire."""


OPAQUE = Other()


def need(d, k):
    if k not in d:
        raise Fail(k)
    return d[k]


def simple(v):
    return next(iter(v.values()))


def variants(log):
    seen, out = set(), []
    for t in log:
        if tuple(t) not in seen:
            seen.add(tuple(t))
            out.append(list(t))
    return out


NEEDS = {'FilterEventsByName': ['event_name'], 'FilterEventsByRegex': ['regex'], 'FilterTracesByEventsCount': ['events_count'], 'ApplyClassExtractor': ['event_class_regex', 'regex'],
         'DrawPlacementOfEventByName': ['event_name'], 'DrawPlacementOfEventsByRegex': ['regex'], 'WriteLogToXes': ['path'], 'ExecuteFrontendPipeline': ['pipeline']}
NO_LOG = ['UseNamesEventLog', 'ClearActivities', 'ReadLogFromXes', 'ExecuteFrontendPipeline']


def faults(name, conf, ctx):
    """What is wrong before a part can start; with several faults any of them may be reported."""
    out = [k for k in NEEDS.get(name, []) if k not in conf]
    if name not in NO_LOG and 'event_log' not in ctx:
        out.append('event_log')
    for k in ('regex', 'event_class_regex'):
        if k in NEEDS.get(name, []) and k in conf:
            try:
                re.compile(simple(conf[k]))
            except re.error:
                out.append(None)
    return out


def step(name, conf, ctx, out):
    wrong = faults(name, conf, ctx)
    if wrong:
        raise Fail(wrong[0] if len(wrong) == 1 else None)
    log = lambda: [list(t) for t in need(ctx, 'event_log')]
    if name == 'UseNamesEventLog':
        ctx['event_log'] = [list(t) for t in need(ctx, 'names_event_log')]
    elif name == 'GetNamesEventLog':
        ctx['names_event_log'] = log()
    elif name == 'GetEventLogInfo':
        ctx['event_log_info'] = (sum(map(len, log())), len(log()), len({e for t in log() for e in t}))
    elif name == 'GetHashesEventLog':
        ctx['hashes_event_log'] = log()
    elif name == 'DiscoverDirectlyFollowsGraph':
        ctx['graph'] = (sorted({e for t in log() for e in t}), Counter(p for t in log() for p in zip(t, t[1:])))
    elif name == 'FilterEventsByName':
        x, n = log(), simple(need(conf, 'event_name'))
        ctx['event_log'] = [t for t in ([e for e in t if e != n] for t in x) if t]
    elif name == 'FilterEventsByRegex':
        x, r = log(), simple(need(conf, 'regex'))
        try:
            r = re.compile(r)
        except re.error:
            raise Fail(None)
        ctx['event_log'] = [t for t in ([e for e in t if not r.search(e)] for t in x) if t]
    elif name == 'FilterLogByVariants':
        ctx['event_log'] = variants(log())
    elif name == 'FilterTracesByEventsCount':
        x, n = log(), simple(need(conf, 'events_count'))
        ctx['event_log'] = [t for t in x if len(t) >= n]
    elif name.startswith('AddArtificial'):
        a, b = 'Start' in name, 'End' in name
        ctx['event_log'] = [['ARTIFICIAL_START'] * a + t + ['ARTIFICIAL_END'] * b for t in log()]
    elif name == 'ApplyClassExtractor':
        x, r, f = log(), simple(need(conf, 'event_class_regex')), simple(need(conf, 'regex'))
        try:
            r, f = re.compile(r), re.compile(f)
        except re.error:
            raise Fail(None)

        def rename(e):
            m = r.search(e) if f.search(e) else None
            return m.group() if m and m.start() == 0 else e
        ctx['event_log'] = [[rename(e) for e in t] for t in x]
    elif name == 'TracesDiversityDiagram':
        ctx['colors_event_log'] = [[(i, 1, e) for i, e in enumerate(t)] for t in log()]
    elif name.startswith('DrawPlacement'):
        if 'Regex' in name:
            r = simple(need(conf, 'regex'))
            try:
                r = re.compile(r)
            except re.error:
                raise Fail(None)
            pick = r.search
        else:
            n = simple(need(conf, 'event_name'))
            pick = lambda e: e == n
        ctx['colors_event_log'] = [[(i, 1, e if pick(e) else None) for i, e in enumerate(t)] for t in log()]
    elif name == 'GetUnderlyingEventsCount':
        n = sum(map(len, log()))
        out.append(('log', f'Number of underlying events: {n}'))
        ctx['underlying_events_count'] = n
    elif name == 'SubstituteUnderlyingEvents':
        ctx['event_log'] = log()
    elif name == 'ClearActivities':
        pass
    elif name == 'ReadLogFromXes':
        p = need(ctx, 'path')
        raise Fail(f'Failed to read event log from {p}')
    elif name == 'WriteLogToXes':
        need(conf, 'path')
        log()
        raise Fail(None)
    elif name == 'ExecuteFrontendPipeline':
        run(need(conf, 'pipeline'), ctx, out)
    else:
        raise AssertionError(name)


def run(steps, ctx, out):
    ctx.setdefault('colors_holder', OPAQUE)
    for p in steps:
        if p[0] == 'get':
            known([p[1]])
            request([p[1]], ctx, out)
            continue
        if p[0] == 'ask':
            known(p[3])
        out.append(('log', f'Started activity {p[1]}'))
        step(p[1], p[2], ctx, out)
        out.append(('finished', p[1]))
        if p[0] == 'ask':
            request(p[3], ctx, out)


KEYS = ['path', 'event_log', 'names_event_log', 'event_log_info', 'hashes_event_log', 'graph', 'colors_event_log', 'underlying_events_count', 'event_name', 'regex',
        'colors_holder']
OTHER_KEYS = ['petri_net', 'activities', 'trace_activities', 'patterns', 'repeat_sets', 'activity_level', 'events_count', 'labeled_log_traces_dataset']
UNKNOWN = ['no_such_key', '', 'Path', 'event_log ']


def known(keys):
    for k in keys:
        if k not in KEYS + OTHER_KEYS:
            raise Fail(k)


def request(keys, ctx, out):
    out.append(('result', list(keys), {k: need(ctx, k) for k in keys}))


def model(steps, initial):
    """(expected messages, context, error or None, failed): error None with failed set means any text."""
    ctx, out = {}, []
    for k, v in initial.items():
        ctx[k] = simple(v) if k != 'names_event_log' else sv.names_of(v)
    try:
        run(steps, ctx, out)
    except Fail as e:
        return out, ctx, e.args[0], True
    return out, ctx, None, False


class Colours:
    """Colours of one request: a name keeps its colour, two names never share one."""
    def __init__(self):
        self.of, self.by = {}, {}

    def fits(self, name, c):
        return self.of.setdefault(name, c) == c and self.by.setdefault(c, name) == name


def judge_value(mon, key, got, exp, colours, what, **w):
    """A value on the wire against the value of the model."""
    mon.event('value:' + key)
    if key in ('event_log', 'colors_holder', 'event_name', 'regex'):
        mon.check(got is None, f'{what}: a value without a form on the wire is not sent', key=key, value=got, **w)
        return
    mon.check(got is not None, f'{what}: the value is sent', key=key, **w)
    if key == 'path':
        mon.equal(got, {'string': exp}, f'{what}: the path', **w)
    elif key == 'underlying_events_count':
        mon.equal(got, {'uint32': exp}, f'{what}: the number of underlying events', **w)
    elif key == 'names_event_log':
        mon.equal(sv.names_of(got), exp, f'{what}: the names', **w)
    elif key == 'event_log_info':
        i = got.get('event_log_info', {})
        mon.equal((i.get('events_count'), i.get('traces_count'), i.get('event_classes_count')), exp, f'{what}: events, traces and classes of the log', **w)
    elif key == 'hashes_event_log':
        rows = [t['events'] for t in got['hashes_log']['log']['traces']]
        mon.equal([len(t) for t in rows], [len(t) for t in exp], f'{what}: one hash per event', **w)
        pairs = {(h, e) for r, t in zip(rows, exp) for h, e in zip(r, t)}
        mon.check(len({h for h, _ in pairs}) == len({e for _, e in pairs}) == len(pairs), f'{what}: equal hashes exactly for equal classes', pairs=pairs, **w)
    elif key == 'graph':
        classes, df = exp
        g = got['graph']
        at = {n['id']: n['data'] for n in g['nodes']}
        mon.equal((len(at), sorted(at.values())), (len(g['nodes']), classes), f'{what}: one node per class', **w)
        mon.equal(sorted((at.get(e['from_node']), at.get(e['to_node']), e['data']) for e in g['edges']), sorted((a, b, str(c)) for (a, b), c in df.items()),
                  f'{what}: the directly-follows edges with their counts', **w)
    elif key == 'colors_event_log':
        rows = sv.rectangles(got)
        mon.equal([[r[1:] for r in t] for t in rows], [[(i, n, e if e is not None else 'UNDEFINED_ACTIVITY') for i, n, e in t] for t in exp],
                  f'{what}: the rectangles of the diagram', **w)
        for r, t in zip(rows, exp):
            for (c, *_), (_, _, e) in zip(r, t):
                if e is None:
                    mon.equal(c, BLACK, f'{what}: an event that is not asked for is black', **w)
                elif c != BLACK:
                    mon.check(colours.fits(e, c), f'{what}: one colour per name, one name per colour', name=e, colour=c, **w)
    else:
        raise AssertionError(key)


def judge(mon, a, steps, initial, what='a pipeline', prefix=None):
    """The whole answer against the model; prefix: only that many messages were read."""
    exp, ctx, err, failed = model(steps, initial)
    colours = Colours()
    w = dict(pipeline=steps, initial=initial)
    n = len(exp)
    msgs = a.messages
    if prefix is not None:
        mon.check(len(msgs) <= prefix, f'{what}: not more is read than asked for', **w)
        if not a.ended and len(msgs) <= n:
            exp = exp[:len(msgs)]
            mon.equal(len(msgs), prefix, f'{what}: a reader gets what it asks for', **w)
        else:
            prefix = None
    if prefix is None:
        mon.check(bool(msgs) and 'finalResult' in msgs[-1], f'{what}: the last message is the final result', last=msgs[-1:], **w)
        mon.equal(sum('finalResult' in m for m in msgs), 1, f'{what}: there is one final result', **w)
        body = msgs[:-1]
        if failed:
            mon.event('failed')
            mon.check('error' in msgs[-1]['finalResult'], f'{what}: a failing part ends the pipeline with an error', final=msgs[-1], **w)
            if err is not None:
                mon.equal(msgs[-1]['finalResult']['error'], err, f'{what}: the error names what is wrong', **w)
        else:
            mon.event('succeeded')
            mon.check(bool(a.guid), f'{what}: success carries an id', final=msgs[-1], **w)
        mon.equal(len(body), n, f'{what}: one message per start, end, value and log line', got_messages=[short(m) for m in body], expected_messages=exp, **w)
    else:
        body = msgs
    for m, e in zip(body, exp):
        if e[0] == 'log':
            mon.equal(m.get('logMessage', {}).get('message'), e[1], f'{what}: log lines in order', **w)
        elif e[0] == 'finished':
            t = m.get('logMessage', {}).get('message')
            f = sv.FINISHED.match(t or '')
            mon.equal(f and f.group(1), e[1], f'{what}: the end of a part is reported', text=t, **w)
        else:
            r = m.get('pipelinePartResult')
            mon.check(r is not None, f'{what}: requested values are sent in order', message_sent=m, **w)
            mon.equal(a.made.get(r['uuid']['uuid']), e[1], f'{what}: the values carry the id of the part that asked for them', **w)
            mon.equal([v['key_name'] for v in r['contextValues']], e[1], f'{what}: every requested value once, in order', **w)
            for v in r['contextValues']:
                judge_value(mon, v['key_name'], v.get('value'), e[2][v['key_name']], colours, what, **w)
    return ctx, failed, colours


def short(m):
    return str(m)[:200]

"""P23: pipelines: order, reuse and isolation of contexts, for every nesting of combinators."""
import copy

from ..acts import *
from python.ficus.legacy.pipelines.pipelines import (ParallelPipeline, WithTempInput, WithInputCopy, IfPipeline, PipelinePart,
                                                     FirstPipelinePart)
from python.ficus.legacy.pipelines.start.start_parts import EmptyStartPart, ReadLogFromXes
from python.ficus.legacy.pipelines.contexts import keys as K

ID = 'P23'
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 60000}
RULE = ('random nestings of pipelines (sequence, parallel, copy, temporary input, condition, one run per activity log) over '
        'recording parts that set, remove and replace context values; the recorded history (which part ran when and what it saw) '
        'and the final context are compared with an interpreter of the combinators; pipelines are edited and run again; '
        'non-trivial: two combinators nested')
ASSUMPTIONS = ['the parts run by the harness change only the context they are given']
REQUIRED_EVENTS = ['part ran', 'sequence', 'parallel', 'copy', 'temporary', 'condition true', 'condition false', 'each activity log', 'nested',
                   'run again', 'edited', 'none skipped', 'non-part refused', 'accessor', 'missing value', 'context copied', 'wrong input refused', 'arbitrary result handed on',
                   'condition changed its context']

VALS = {'log': ('with_log', A.log), 'activities': ('with_activities', A.activities), 'repeat_sets': ('with_repeat_sets', A.repeat_sets),
        'traces_activities': ('with_trace_activities', A.traces_activities), 'patterns': ('with_patterns', A.patterns),
        'petri_net': ('with_petri_net', A.petri_net), 'event_class_tree': ('with_event_class_tree', A.event_class_tree),
        'activities_to_logs': ('with_activities_logs', A.activities_to_logs), 'serialized_graph': ('with_serialized_graph', A.serialized_graph),
        'graph': ('with_graph', A.graph), 'activity_name': ('with_activity_name', A.activity_name),
        'cached_colors': ('with_cached_colors', A.cached_colors)}
KEYS = list(VALS)


def read(ctx):
    out = {}
    for k in KEYS:
        if k == 'cached_colors':
            if ctx.has_value(K.cached_colors_key):
                out[k] = A.cached_colors(ctx)
            continue
        try:
            out[k] = VALS[k][1](ctx)
        except ValueError:
            pass
    for k in ('c1', 'c2'):
        if ctx.has_value(k):
            out[k] = ctx.get_value_or_throw(k)
    return out


def write(ctx, k, v):
    if k in VALS:
        return getattr(ctx, VALS[k][0])(v)
    return ctx.with_custom_data(k, v)


class Ctx:
    """model of a context: identity matters, values are a dict"""

    def __init__(self, v=None):
        self.v = dict(v or {})

    def copy(self):
        return Ctx(self.v)


class Do(InternalPipelinePart):
    def __init__(self, ident, ops, trace):
        self.ident, self.ops, self.trace = ident, ops, trace

    def execute(self, c):
        self.trace.append((self.ident, read(c)))
        for op in self.ops:
            if op[0] == 'set':
                r = write(c, op[1], op[2])
                if r is not c:
                    self.trace.append('setter returned another context')
            elif op[0] == 'del' and op[1] in ('c1', 'c2') and c.has_value(op[1]):
                c.remove(op[1])
            elif op[0] == 'new':
                c = PipelinePartResult().with_log(op[1])
        return c


class Hand(InternalPipelinePart):
    def __init__(self, seen, result):
        self.seen, self.result = seen, result

    def execute(self, c):
        self.seen.append(c)
        return self.result


def run_do(spec, c, trace):
    trace.append((spec[1], dict(c.v)))
    for op in spec[2]:
        if op[0] == 'set':
            c.v[op[1]] = op[2]
        elif op[0] == 'del' and op[1] in ('c1', 'c2'):
            c.v.pop(op[1], None)
        elif op[0] == 'new':
            c = Ctx({'log': op[1]})
    return c


def gen_spec(rng, depth, counter):
    k = rng.choice(['do', 'do', 'parallel', 'copy', 'temp', 'if', 'each']) if depth > 0 else 'do'
    counter[0] += 1
    i = counter[0]
    if k == 'do':
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.75:
                key = rng.choice(KEYS + ['c1', 'c2'])
                v = rng.choice([f'v{i}.{len(ops)}'] * 6 + [None, 0, '', False, [], {}]) if key != 'activities_to_logs' else {f'n{j}': f'log{i}.{j}' for j in range(rng.choice([0, 1, 2, 3]))}
                ops.append(('set', key, v))
            elif r < 0.93:
                ops.append(('del', rng.choice(['c1', 'c2'])))
            else:
                ops.append(('new', f'newlog{i}'))
        return ('do', i, ops)
    if k == 'parallel':
        return ('parallel', i, [gen_seq(rng, depth - 1, counter) for _ in range(rng.choice([1, 2, 3]))])
    if k == 'temp':
        return ('temp', i, gen_seq(rng, depth - 1, counter), rng.choice(['old', 'new', 'mix']), rng.random() < 0.5)
    if k == 'if':
        return ('if', i, gen_seq(rng, depth - 1, counter), rng.choice(['c1', 'c2', 'log', 'never']), rng.random() < 0.3)
    return (k, i, gen_seq(rng, depth - 1, counter))


def gen_seq(rng, depth, counter):
    return [gen_spec(rng, depth, counter) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def build(seq, trace, rng):
    parts = []
    for s in seq:
        if rng.random() < 0.1:
            parts.append(None)
        parts.append(build_part(s, trace, rng))
    return Pipeline(*parts)


def build_part(s, trace, rng):
    k = s[0]
    if k == 'do':
        return Do(s[1], s[2], trace)
    if k == 'parallel':
        return ParallelPipeline(*[build(x, trace, rng) for x in s[2]])
    if k == 'copy':
        return WithInputCopy(build(s[2], trace, rng))
    if k == 'each':
        return ExecuteWithEachActivityLog(build(s[2], trace, rng))
    if k == 'if':
        key = s[3]

        def cond(c):
            trace.append(('cond', s[1], read(c)))
            has = key in read(c)
            if s[4]:
                c.with_custom_data('c1', 'cond%d' % s[1])
            return rng.choice([1, 'yes', [0]] if has else [0, '', None, []]) if s[1] % 2 else has
        return IfPipeline(cond, build(s[2], trace, rng))
    fresh, how = s[4], s[3]

    def start(c):
        trace.append(('start', s[1], read(c)))
        if s[1] % 3 == 0:
            c.with_custom_data('c2', 'start%d' % s[1])
        return copy.copy(c) if fresh else PipelinePartResult().with_log('temp%d' % s[1])

    def merge(old, new):
        trace.append(('merge', s[1], read(old), read(new)))
        if how == 'mix':
            return old.with_custom_data('c2', 'merged%d' % s[1])
        return old if how == 'old' else new
    return WithTempInput(start, merge, build(s[2], trace, rng))


def interp(seq, c, trace, mon):
    for s in seq:
        k = s[0]
        if k == 'do':
            mon.event('part ran')
            c = run_do(s, c, trace)
        elif k == 'parallel':
            mon.event('parallel')
            base = c
            for x in s[2]:
                c = interp(x, base.copy(), trace, mon)
        elif k == 'copy':
            mon.event('copy')
            interp(s[2], c.copy(), trace, mon)
        elif k == 'each':
            logs = c.v.get('activities_to_logs')
            if logs is None:
                raise ValueError
            for n, l in logs.items():
                mon.event('each activity log')
                interp(s[2], Ctx({'log': l, 'activity_name': n}), trace, mon)
        elif k == 'if':
            trace.append(('cond', s[1], dict(c.v)))
            has = s[3] in c.v
            if s[4]:
                mon.event('condition changed its context')
                c.v['c1'] = 'cond%d' % s[1]
            if has:
                mon.event('condition true')
                c = interp(s[2], c, trace, mon)
            else:
                mon.event('condition false')
        else:
            mon.event('temporary')
            trace.append(('start', s[1], dict(c.v)))
            if s[1] % 3 == 0:
                c.v['c2'] = 'start%d' % s[1]
            t = c.copy() if s[4] else Ctx({'log': 'temp%d' % s[1]})
            r = interp(s[2], t, trace, mon)
            trace.append(('merge', s[1], dict(c.v), dict(r.v)))
            if s[3] == 'mix':
                c.v['c2'] = 'merged%d' % s[1]
            elif s[3] == 'new':
                c = r
    return c


def ok_each(seq, mon, init):
    try:
        interp(seq, init, [], Quiet)
        return True
    except ValueError:
        return False


class Quiet:
    @staticmethod
    def event(*a):
        pass


def depth_of(seq):
    return max([1 + max([depth_of(x) for x in (s[2] if s[0] == 'parallel' else [s[2]])] or [0]) if s[0] != 'do' else 0 for s in seq] or [0])


def run_case(rng, index, mon):
    seq = gen_seq(rng, rng.choice([0, 1, 2, 3]), [0])
    while not seq:
        seq = gen_seq(rng, 2, [0])
    init = {'log': 'log0'}
    if rng.random() < 0.6:
        init['activities_to_logs'] = {'x': 'lx', 'y': 'ly'}
    if rng.random() < 0.3:
        init['c1'] = 1
    if not ok_each(seq, mon, Ctx(init)):
        init['activities_to_logs'] = {'x': 'lx'}
        if not ok_each(seq, mon, Ctx(init)):
            seq = [s for s in seq if s[0] == 'do'] or [('do', 1, [('set', 'c1', 1)])]
    trace = []
    pipe = build(seq, trace, rng)
    mon.event('sequence')
    if depth_of(seq) > 1:
        mon.event('nested')
        mon.distinct(repr(seq))
        mon.sample(seq)

    def start():
        c = PipelinePartResult()
        for k, v in init.items():
            write(c, k, v)
        return c
    for run in range(rng.choice([1, 2])):
        if run:
            mon.event('run again')
        trace.clear()
        c0 = start()
        m0 = Ctx(init)
        keep = copy.copy(c0)
        want = []
        m = interp(seq, m0, want, mon)
        how = rng.randrange(2)
        r = mon.call(pipe if how else pipe.execute, c0, what='Pipeline')
        mon.equal(trace, want, 'the parts did not run in the defined order on the defined contexts', spec=seq, run=run)
        mon.equal(read(r), m.v, 'the resulting context is wrong', spec=seq)
        mon.equal(read(c0), m0.v, 'the context given to the pipeline has unexpected values', spec=seq)
        mon.check((r is c0) == (m is m0), 'the context handed on is not the defined one', spec=seq)
        mon.equal(read(keep), dict(init), 'a copy of the context made before the run was changed', spec=seq)
        mon.event('context copied')
    # editing a pipeline
    if rng.random() < 0.5:
        mon.event('edited')
        n = len(seq)
        extra = ('do', 999, [('set', 'c2', 'extra')])
        what = rng.choice(['append', 'insert', 'remove'])
        if what == 'append':
            pipe.append(build_part(extra, trace, rng))
            seq = seq + [extra]
        elif what == 'insert':
            p = rng.randint(0, n)
            pipe.insert(p, build_part(extra, trace, rng))
            seq = seq[:p] + [extra] + seq[p:]
        else:
            p = rng.randrange(n)
            pipe.remove(p)
            seq = seq[:p] + seq[p + 1:]
        if ok_each(seq, mon, Ctx(init)):
            trace.clear()
            want = []
            m = interp(seq, Ctx(init), want, mon)
            r = mon.call(pipe, start(), what='edited Pipeline')
            mon.equal(trace, want, 'the edited pipeline does not run the defined parts', spec=seq, edit=what)
            mon.equal(read(r), m.v, 'the edited pipeline gives a wrong context', spec=seq)
    if index % 10:
        return
    # accessors
    for k in KEYS + ['c1']:
        c = PipelinePartResult()
        v = object()
        if k == 'cached_colors':
            v = {}
        mon.event('accessor')
        mon.check(write(c, k, v) is c, 'a setter does not return its context', key=k)
        mon.check(list(read(c)) == [k] and read(c)[k] is v, 'a value is not found where it was put', key=k, found=list(read(c)))
        d = copy.copy(c)
        write(d, k, 'other')
        mon.check(read(c)[k] is v, 'changing a copied context changed the original', key=k)
        if k not in ('cached_colors', 'c1'):
            mon.event('missing value')
            try:
                VALS[k][1](PipelinePartResult())
                mon.check(False, 'a missing value was read', key=k)
            except ValueError:
                pass
    c = PipelinePartResult()
    colors = A.cached_colors(c)
    colors['x'] = 'y'
    mon.check(A.cached_colors(c) is colors, 'the colours of a context are not kept')
    for bad in ([1], ['x'], [Pipeline()], [Do(1, [], []), object()], [lambda x: x]):
        mon.event('non-part refused')
        try:
            Pipeline(*bad)
            mon.check(False, 'something that is not a part was accepted', part=bad)
        except TypeError:
            pass
    for given in (None, 0, '', [], {}, False, 'x', fx.log_of_names([]), PipelinePartResult()):
        for inner in (lambda p: p, lambda p: Pipeline(IfPipeline(lambda c: True, p)), lambda p: Pipeline(WithTempInput(lambda c: c, lambda old, new: new, p))):
            mon.event('arbitrary result handed on')
            t = []
            r = inner(Pipeline(Hand(t, given), Hand(t, given), Hand(t, 'last')))
            mon.check(r('first') == 'last' and t[0] == 'first' and t[1] is given and t[2] is given, 'a part was not given what the part before it returned', given=repr(given), seen=t)
            t.clear()
            mon.check(Pipeline()(given) is given and Pipeline(Hand(t, given))('y') is given, 'the result of a pipeline is not the result of its last part', given=repr(given))
    t = []
    mon.event('none skipped')
    mon.equal(read(Pipeline(None, Do(1, [('set', 'c1', 2)], t), None)(PipelinePartResult())), {'c1': 2}, 'None parts are not skipped')
    for part, bads, err in ((UseExistingLog(), [None, 'x', [], [[1]], PipelinePartResult()], ValueError), (ReadLogFromXes(), [None, 1, fx.log_of_names([['a']])], TypeError)):
        for b in bads:
            mon.event('wrong input refused')
            try:
                part(b)
                mon.check(False, 'a wrong input was accepted', part=part, input=b)
            except err:
                pass
    lg = fx.log_of_names([['a']])
    mon.check(A.log(Pipeline(UseExistingLog())(lg)) is lg, 'the log handed in is not used')
    mon.equal(read(Pipeline(EmptyStartPart())()), {}, 'the empty start is not empty')

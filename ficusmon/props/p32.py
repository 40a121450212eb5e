"""P32: executing a client pipeline follows the protocol of the backend, whatever the backend answers."""
import re
import threading
import uuid

from .. import gen, wire, backend
from ..backend import grpc
from ..wireparts import *
from ..wireparts import make, normal
import python.ficus.grpc_pipelines.context_values as V

ID = 'P32'
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 20000}
RULE = ('a real gRPC server on the loopback interface plays random scripts of log messages, part results (known, repeated, unknown, without values), '
        'final results, late messages and failures against the real client; requests, callbacks, printed messages, releases and the '
        'returned result are recorded and judged against the script, also with several executions at once; non-trivial: at least two '
        'callbacks in a run')
ASSUMPTIONS = ['a stream carries at least one message or fails (the backend always sends a final result)']
REQUIRED_EVENTS = ['success', 'failure', 'callback', 'unknown part', 'log message', 'late message', 'broken stream', 'default address', 'released', 'same pipeline again',
                   'nested callback', 'large answer', 'large request', 'concurrent runs', 'callback raised', 'no final result', 'edited between runs', 'no such host']
SERVER = None


def worker_start(mon):
    global SERVER
    SERVER = backend.Backend()


def worker_end(mon):
    SERVER.stop()


class Probe(PipelinePart2WithCallback):
    """A part of the user: records what it is called with."""
    def __init__(self, calls, tag, fail_at=None):
        super().__init__()
        self.calls, self.tag, self.fail_at, self.n = calls, tag, fail_at, 0

    def to_grpc_part(self):
        from python.ficus.grpc_pipelines.grpc_pipelines import _create_simple_get_context_value_part
        return GrpcPipelinePartBase(simpleContextRequestPart=_create_simple_get_context_value_part(self.uuid, 'probe_' + self.tag))

    def execute_callback(self, values):
        self.n += 1
        self.calls.append((self.tag, {k: wire.plain(v) for k, v in values.items()}, threading.get_ident()))
        if self.fail_at == self.n:
            raise KeyError('user callback')


def value(rng, texts):
    r = rng.random()
    if r < 0.4:
        return {'uint32': rng.choice([0, 1, 77])}
    if r < 0.7:
        return {'string': rng.choice(texts)}
    return {'names_log': {'log': {'traces': [{'events': [rng.choice(texts) for _ in range(rng.randint(0, 3))]} for _ in range(rng.randint(0, 3))]}}}


def context(rng, texts):
    ctx, exp = {}, []
    for i in range(rng.randint(0, 4)):
        k = f'k{i}_' + rng.choice(texts)
        kind = rng.choice(['string', 'uint32', 'bool', 'names'])
        if kind == 'string':
            t = rng.choice(texts)
            ctx[k], e = V.StringContextValue(t), {'string': t}
        elif kind == 'uint32':
            n = rng.randrange(100)
            ctx[k], e = V.Uint32ContextValue(n), {'uint32': n}
        elif kind == 'bool':
            b = rng.random() < 0.5
            ctx[k], e = V.BoolContextValue(b), {'bool': b}
        else:
            l = [[rng.choice(texts) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 3))]
            ctx[k], e = V.NamesLogContextValue(l), {'names_log': {'log': {'traces': [{'events': t} for t in l]}}}
        exp.append({'key': {'name': k}, 'value': e})
    return ctx, exp


def build(rng, texts, mon, calls, prefix=''):
    """[top level parts], probes {uuid: tag}, expected wire."""
    parts, wires, probes = [], [], []
    for i in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.5:
            p = Probe(calls, f'{prefix}p{i}')
            parts.append(p)
            probes.append((p, False))
            wires.append(wireprobe(p))
        elif r < 0.8:
            inner = [Probe(calls, f'{prefix}n{i}_{j}') for j in range(rng.randint(1, 3))]
            probes += [(p, True) for p in inner]
            pl = Pipeline2(*inner)
            which = rng.choice(['each', 'until', 'traces'])
            if which == 'each':
                part = AP.ExecuteWithEachActivityLog2(DM.ActivitiesLogsSource.Log, 1, pl)
            elif which == 'until':
                part = AP.DiscoverActivitiesUntilNoMore2(after_activities_extraction_pipeline=pl)
            else:
                part = UP.PrintEventlogInfoBeforeAfter(pl)
            parts.append(part)
            wires.append(None)
        else:
            m = make(rng, texts, depth=2, only=['ReadLogFromXes2', 'FilterEventsByName2', 'DiscoverPetriNetAlpha2', 'ApplyClassExtractor2'])
            parts.append(m.part)
            wires.append(m.wire)
    return parts, wires, probes


def wireprobe(p):
    return {'simpleContextRequestPart': {'key': {'name': 'probe_' + p.tag}, 'frontendPartUuid': {'uuid': str(p.uuid)}}}


def script(rng, texts, mon, probes, big=False):
    """(messages, expected callbacks, expected log messages, how it ends, guid)"""
    msgs, calls, logs = [], [], []
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if r < 0.55 and probes:
            p, nested = rng.choice(probes)
            vals = [(f'v{i}', value(rng, texts)) for i in range(rng.choice([0, 1, 1, 2]))]
            msgs.append(backend.part_result(p.uuid, vals))
            calls.append((p.tag, dict(vals)))
            mon.event('callback')
            if nested:
                mon.event('nested callback')
        elif r < 0.75:
            mon.event('unknown part')
            msgs.append(backend.part_result(uuid.uuid4(), [('x', {'uint32': 1})]))
        else:
            t = rng.choice(texts) + f' line {rng.randrange(1000)}' + rng.choice(['', '', '', '', '\n', '\nnext\n\n', '  ', '\t'])
            t = rng.choice(['', ' ', '  ']) + t if rng.random() < 0.9 else rng.choice(['', '\n', ' '])
            mon.event('log message')
            msgs.append(backend.log(t))
            logs.append(t)
    if big and probes:
        p, _ = probes[0]
        v = {'names_log': {'log': {'traces': [{'events': ['x' * 1000] * 6000}]}}}
        msgs.append(backend.part_result(p.uuid, [('big', v)]))
        calls.append((p.tag, {'big': v}))
        mon.event('large answer')
    guid = str(uuid.uuid4())
    r = rng.random()
    if r < 0.5:
        end = 'success'
        msgs.append(backend.success(guid))
    elif r < 0.75:
        end = 'failure'
        msgs.append(backend.error(rng.choice(texts)))
    elif r < 0.88:
        end = 'broken stream'
    else:
        end = 'no final result'
        if not msgs:
            msgs.append(backend.log('only'))
            logs.append('only')
    if end in ('success', 'failure') and rng.random() < 0.4:
        mon.event('late message')
        if probes:
            msgs.append(backend.part_result(probes[0][0].uuid, [('late', {'uint32': 5})]))
        msgs.append(backend.log('too late'))
        msgs.append(backend.success('other guid'))
    mon.event(end)
    return msgs, calls, logs, end, guid


def closed(ch):
    try:
        ch.unary_unary('/x/y')(b'', timeout=0.01)
    except ValueError:
        return True
    except grpc.RpcError:
        return False
    return False


TIMING = re.compile(r'^(Started activity .*|.* has finished in .*)$')


def printed(text):
    """Lines printed, without the timing lines around callbacks."""
    return [l for l in text.split('\n') if not TIMING.match(l)]


def judge(mon, s, calls, expc, end, guid, res, err, ctx, before, expctx, w):
    mon.equal(len(s.requests), 1, 'the pipeline is not sent exactly once', **w)
    req = s.requests[0]
    mon.equal(sorted(map(repr, req['initialContext'])), sorted(map(repr, expctx)), 'the initial context reaches the backend differently', **w)
    mon.check(list(ctx) == list(before) and all(ctx[k] is before[k] for k in before), 'the initial context of the caller is changed', **w)
    mon.equal([(t, v) for t, v, _ in calls], expc, 'the callbacks are not exactly the results of the backend, in order', **w)
    if end == 'broken stream':
        mon.check(isinstance(err, grpc.RpcError), 'a broken stream is not reported', returned=res, raised=err, **w)
        mon.equal(s.drops, [], 'a result that does not exist is released', **w)
        return
    mon.check(err is None, f'execution raised {type(err).__name__}: {err}', **w)
    if end == 'success':
        mon.event('released')
        mon.equal(s.drops, [guid], 'the result is not released exactly once', **w)
        mon.equal(wire.plain(res), {'finalResult': {'success': {'guid': guid}}}, 'the final result is not returned', **w)
    elif end == 'failure':
        mon.equal(s.drops, [], 'a failed execution is released', **w)
        mon.check('error' in wire.plain(res).get('finalResult', {}), 'the error is not returned', returned=wire.plain(res), **w)
    else:
        mon.equal(s.drops, [], 'a result that does not exist is released', **w)


def run_case(rng, index, mon):
    texts = [t for t in gen.alphabet(rng, k=5) if t and not any(ord(ch) < 32 or ch in '\x85\u2028\u2029' for ch in t)] or ['a']
    if index % 5 == 0:
        return concurrent(rng, mon, texts)
    calls = []
    parts, wires, probes = build(rng, texts, mon, calls)
    pl = Pipeline2(*parts)
    runs = rng.choice([1, 1, 2, 3])
    for run in range(runs):
        if run:
            mon.event('same pipeline again')
            if rng.random() < 0.5:
                mon.event('edited between runs')
                p = Probe(calls, f'extra{run}')
                pl.parts.append(p)
                wires.append(wireprobe(p))
                probes.append((p, False))
        del calls[:]
        del backend.CHANNELS[:]
        big = index % 40 == 1 and run == 0
        msgs, expc, logs, end, guid = script(rng, texts, mon, probes, big)
        fail = None
        if expc and end == 'success' and rng.random() < 0.08:
            fail = rng.randrange(len(expc))
            target = expc[fail][0]
            pr = next(p for p, _ in probes if p.tag == target)
            pr.n, pr.fail_at = 0, sum(1 for c in expc[:fail + 1] if c[0] == target)
            expc = expc[:fail + 1]
            mon.event('callback raised')
        ctx, expctx = context(rng, texts)
        if index % 40 == 2:
            l = [['y' * 1000] * 3000, ['z' * 1000] * 3000]
            ctx['big'] = V.NamesLogContextValue(l)
            expctx.append({'key': {'name': 'big'}, 'value': {'names_log': {'log': {'traces': [{'events': t} for t in l]}}}})
            mon.event('large request')
        s = SERVER.default = backend.Session(msgs, grpc.StatusCode.INTERNAL if end == 'broken stream' else None)
        SERVER.sessions = {}
        SERVER.guids = {}
        addr = SERVER.addr
        if rng.random() < 0.7:
            ctx['backend'] = addr
        else:
            mon.event('default address')
            addr = 'localhost:8080'
        before = dict(ctx)
        mon.out.seek(0)
        mon.out.truncate()
        res = err = None
        try:
            with mon.step.limit(5_000_000):
                res = pl.execute(ctx)
        except Exception as e:
            err = e
        w = dict(parts=[type(p).__name__ for p in pl.parts], script=[repr(wire.plain(m))[:200] for m in msgs], end=end)
        mon.check(len(backend.CHANNELS) >= 1 and all(t == addr for t, _ in backend.CHANNELS), 'the wrong backend is asked', asked=[t for t, _ in backend.CHANNELS], wanted=addr, **w)
        mon.check(all(closed(ch) for _, ch in backend.CHANNELS), 'the connection is left open', **w)
        if fail is not None:
            mon.check(isinstance(err, KeyError), 'an error in a callback of the user is swallowed', raised=err, **w)
            mon.equal([(t, v) for t, v, _ in calls], expc, 'callbacks before the failing one differ', **w)
            pr.fail_at = None
            continue
        judge(mon, s, calls, expc, end, guid, res, err, ctx, before, expctx, w)
        mon.equal(len(s.requests[0]['pipeline']['parts']), len(pl.parts), 'not every part is sent', **w)
        for got, exp in zip(s.requests[0]['pipeline']['parts'], wires):
            if exp is not None:
                mon.equal(normal(got), normal(exp), 'a part reaches the backend differently', **w)
        if s.drops:
            mon.check(s.order.index('execute') < s.order.index('drop'), 'released before it ran', **w)
        out = printed(mon.out.getvalue())
        mon.equal('\n'.join(out), ''.join(t + '\n' for t in logs), 'the messages of the backend are not printed exactly, in order', **w)
        if len(expc) >= 2:
            mon.distinct(repr([wire.plain(m) for m in msgs]))
            mon.sample({'script': w['script'][:4], 'end': end})
    if rng.random() < 0.03:
        mon.event('no such host')
        s = SERVER.default = backend.Session([])
        try:
            res = pl.execute({'backend': '127.0.0.1:1'})
        except grpc.RpcError:
            res = 'reported'
        mon.equal(res, 'reported', 'a backend that cannot be reached is not reported')


def concurrent(rng, mon, texts):
    """Several executions at once in threads; none may see the results of another."""
    mon.event('concurrent runs')
    jobs = []
    SERVER.sessions, SERVER.guids = {}, {}
    SERVER.default = backend.Session([])
    barrier = threading.Barrier(3, timeout=10)
    for i in range(3):
        calls = []
        parts, wires, probes = build(rng, texts, mon, calls, prefix=f't{i}')
        msgs, expc, logs, end, guid = script(rng, texts, mon, probes)
        fin = [k for k, m in enumerate(msgs) if m.HasField('finalResult')] + [len(msgs)]
        cut = rng.randint(0, fin[0])
        ctx, expctx = context(rng, texts)
        tag = f'session-{i}-{guid}'
        ctx['tag'] = V.StringContextValue(tag)
        expctx.append({'key': {'name': 'tag'}, 'value': {'string': tag}})
        ctx['backend'] = SERVER.addr

        def meet():
            try:
                barrier.wait()
            except threading.BrokenBarrierError:
                pass
        s = backend.Session(msgs[:cut] + [meet] + msgs[cut:], grpc.StatusCode.INTERNAL if end == 'broken stream' else None)
        SERVER.sessions[tag] = s
        SERVER.guids[guid] = s
        jobs.append(dict(pl=Pipeline2(*parts), ctx=ctx, before=dict(ctx), s=s, calls=calls, expc=expc, end=end, guid=guid, expctx=expctx, res=None, err=None))

    def go(j):
        try:
            j['res'] = j['pl'].execute(j['ctx'])
        except Exception as e:
            j['err'] = e
    ths = [threading.Thread(target=go, args=(j,)) for j in jobs]
    for t in ths:
        t.start()
    for t in ths:
        t.join(120)
    mon.check(not any(t.is_alive() for t in ths), 'an execution does not end')
    for j in jobs:
        judge(mon, j['s'], j['calls'], j['expc'], j['end'], j['guid'], j['res'], j['err'], j['ctx'], j['before'], j['expctx'], dict(end=j['end'], concurrent=True))
    mon.distinct('c', repr([j['expc'] for j in jobs]))

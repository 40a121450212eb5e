"""Talks to the whole Rust backend: pipelines are sent to the real gRPC service as protobuf messages and its stream of messages is read back.

A pipeline is a list of parts: ('do', name, config), ('get', key), ('ask', name, config, keys); config is a dict of plain context values.
A part is written either directly as a message or, where the Python client has a part for it, by the real client."""
import re
import uuid

from . import rust, wire
from .core import Inconclusive, Violation, short
from .rust import worker_end  # noqa: F401

S = None


def prepare(base):
    rust.build_service(base)


def worker_start(mon):
    global S
    S = rust.H = Service(mon)


def names(log):
    return {'names_log': {'log': {'traces': [{'events': list(t)} for t in log]}}}


def u32(n):
    return {'uint32': n}


def text(s):
    return {'string': s}


def flag(b):
    return {'bool': b}


def real(x):
    return {'float': wire.f32(x)}


def texts(ss):
    return {'strings': {'strings': list(ss)}}


def enum(kind, v):
    return {'enum': {'enumType': kind, 'value': v}}


class Steps(list):
    """A pipeline as the value of a setting."""


def value(v, made):
    if isinstance(v, Steps):
        return {'pipeline': {'parts': [base(p, made) for p in v]}}
    return v


def config(c, made):
    return {'configurationParameters': [{'key': {'name': k}, 'value': value(v, made)} for k, v in c.items()]}


def base(p, made):
    """The message of one part; parts that report values are entered in made: uuid -> keys."""
    if p[0] == 'do':
        return {'defaultPart': {'name': p[1], 'configuration': config(p[2], made)}}
    u = str(uuid.uuid4())
    if p[0] == 'get':
        made[u] = [p[1]]
        return {'simpleContextRequestPart': {'key': {'name': p[1]}, 'frontendPartUuid': {'uuid': u}}}
    made[u] = list(p[3])
    return {'complexContextRequestPart': {'keys': [{'name': k} for k in p[3]], 'frontendPartUuid': {'uuid': u},
                                          'beforePipelinePart': {'name': p[1], 'configuration': config(p[2], made)}}}


def by_client(p, made):
    """The same part made by the Python client, or None if it has none for it."""
    from . import wireparts as W
    kind = {'do': 'default', 'get': 'simple', 'ask': 'complex'}[p[0]]
    name, keys, conf = (p[1], None, p[2]) if p[0] == 'do' else (None, p[1], {}) if p[0] == 'get' else (p[1], list(p[3]), p[2])
    for cls, shape, params in W.TABLE:
        if shape != (kind, name, keys):
            continue
        wired = {k: (n, t) for n, t, _, k in params if k is not None}
        if not set(conf) <= set(wired):
            continue
        if any(d is not None and k not in conf for _, _, d, k in params if k is not None):
            continue
        kw = {}
        for k, v in conf.items():
            n, t = wired[k]
            if isinstance(v, Steps):
                inner = [by_client(x, made) for x in v]
                if None in inner:
                    return None
                kw[n] = W.Pipeline2(*inner)
            elif 'enum' in v:
                kw[n] = t[v['enum']['value']]
            elif 'strings' in v:
                kw[n] = v['strings']['strings']
            else:
                kw[n] = next(iter(v.values()))
        part = cls(**kw)
        if p[0] != 'do':
            made[str(part.uuid)] = [keys] if p[0] == 'get' else keys
        return part
    return None


class Answer:
    def __init__(self, messages, ended, made, panics):
        self.messages, self.ended, self.made, self.panics = messages, ended, made, panics

    @property
    def final(self):
        return self.messages[-1].get('finalResult') if self.messages else None

    @property
    def guid(self):
        return (self.final or {}).get('success', {}).get('guid')

    @property
    def error(self):
        return (self.final or {}).get('error')

    @property
    def logs(self):
        return [m['logMessage']['message'] for m in self.messages if 'logMessage' in m]

    @property
    def results(self):
        """[(keys asked for, {key: value or None})] in order."""
        return [(self.made.get(r['uuid']['uuid']), {v['key_name']: v.get('value') for v in r['contextValues']})
                for r in (m['pipelinePartResult'] for m in self.messages if 'pipelinePartResult' in m)]


class Service(rust.Harness):
    def request(self, steps, initial=None, client=None):
        """client: a random generator that decides which parts the Python client writes."""
        made = {}
        parts = []
        for p in steps:
            part = by_client(p, made) if client is not None and client.random() < 0.5 else None
            if part is None:
                parts.append(base(p, made))
            else:
                self.mon.event('written by the client')
                m = wire.cls('GrpcPipelinePartBase')()
                m.ParseFromString(part.to_grpc_part().SerializeToString())
                parts.append(m)
        req = wire.cls('GrpcPipelineExecutionRequest')(
            pipeline={'parts': parts}, initialContext=[{'key': {'name': k}, 'value': value(v, made)} for k, v in (initial or {}).items()])
        return req.SerializeToString().hex(), made

    def read(self, got, made, panics):
        if 'status' in got:
            return Answer([got], True, made, panics)
        return Answer([wire.plain(wire.cls('GrpcPipelinePartExecutionResult').FromString(bytes.fromhex(m))) if isinstance(m, str) else m
                       for m in got['messages']], got['ended'], made, panics)

    def call(self, op, args, allow=False):
        got = self.ask(op, what='the service', **args)
        if not allow and any(not p.startswith('harness:') for p in got['panics']):
            raise Violation(f'a request panicked in the backend: {got["panics"]}', {'request': short(args, 3000)})
        if got['panics'] and any(p.startswith('harness:') for p in got['panics']):
            raise Inconclusive(str(got['panics']))
        return got['answer'], got['panics']

    def execute(self, steps, initial=None, client=None, allow=False, **k):
        req, made = self.request(steps, initial, client)
        got, panics = self.call('execute', {'request': req, **k}, allow)
        return self.read(got, made, panics)

    def together(self, runs, client=None):
        reqs = [self.request(s, i, client) for s, i, _ in runs]
        got, panics = self.call('together', {'runs': [{'request': r, **k} for (r, _), (_, _, k) in zip(reqs, runs)]})
        return [self.read(g, made, panics) for g, (_, made) in zip(got, reqs)]

    def value(self, guid, key):
        req = wire.cls('GrpcGetContextValueRequest')(executionId={'guid': guid}, key={'name': key}).SerializeToString().hex()
        got, _ = self.call('value', {'request': req})
        return wire.plain(wire.cls('GrpcGetContextValueResult').FromString(bytes.fromhex(got['message']))) if 'message' in got and 'status' not in got else got

    def drop(self, guid):
        got, _ = self.call('drop', {'request': wire.cls('GrpcGuid')(guid=guid).SerializeToString().hex()})
        return got

    def get(self, steps, initial=None, client=None, drop=True):
        """Executes a pipeline that must succeed; the answer."""
        a = self.execute(steps, initial, client)
        if a.error is not None or a.guid is None:
            raise Violation(f'a valid pipeline does not succeed: {a.final}', {'pipeline': short(steps, 2000), 'initial': short(initial, 1000), 'logs': a.logs})
        if drop:
            self.drop(a.guid)
        return a


FINISHED = re.compile(r'^Activity (.*) finished in \d+ms$', re.S)


def names_of(v):
    """Names log of a value."""
    return None if v is None or 'names_log' not in v else [t['events'] for t in v['names_log']['log']['traces']]


def net_of(v):
    """A Petri net as the judges of P40, P41 and P44 read it."""
    n = v['petriNet']
    arc = lambda a: [a['placeId'], a['id'], a['tokens_count']]
    mark = lambda m: None if m is None else [[x['placeId'], x['tokensCount']] for x in m['markings']]
    return {'places': [[p['id'], p['name']] for p in n['places']],
            'transitions': [{'id': t['id'], 'name': t['data'], 'data': t['data'], 'silent': False, 'in': [arc(a) for a in t['incomingArcs']],
                             'out': [arc(a) for a in t['outgoingArcs']]} for t in n['transitions']],
            'initial': mark(n.get('initial_marking')), 'final': mark(n.get('final_marking'))}


def rectangles(v):
    """Colours log: per trace [(colour, start, length, name)]."""
    return [[((r['color']['red'], r['color']['green'], r['color']['blue']), r['start_index'], r['length'], r['name']) for r in t['event_colors']]
            for t in v['colors_log']['traces']]


def colour(c):
    return (c['red'], c['green'], c['blue'])

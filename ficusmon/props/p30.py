"""P30: values cross the border between Python and the backend unchanged."""
import numpy as np

from .. import gen, wire
from ..wire import f32
import python.ficus.grpc_pipelines.context_values as V
from python.ficus.grpc_pipelines.constants import const_cluster_labels
from python.ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelineContextValue
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as C, pm_models_pb2 as M, util_pb2 as U
from python.ficus.legacy.discovery.petri_net import PetriNet
from python.ficus.legacy.discovery.graph import Graph

ID = 'P30'
LEVEL = 'exploration'
CASES = {'quick': 8000, 'thorough': 150000}
RULE = ('random values of every kind the client sends are encoded, carried as bytes and read by classes compiled from the .proto files; random values '
        'of every kind the client receives are written by those classes and converted back; every element is compared; '
        'non-trivial: a value with at least two elements')
ASSUMPTIONS = ['numbers within the range of the protocol', 'floats have single precision on the wire', 'texts without lone surrogates']
SENT = ['string', 'float', 'uint32', 'bool', 'hashes_log', 'names_log', 'enum', 'strings', 'event_log_info', 'pipeline']
RECEIVED = ['names', 'colors', 'info', 'net', 'count annotation', 'frequency annotation', 'dataset', 'labeled dataset', 'graph']
REQUIRED_EVENTS = ['sent ' + s for s in SENT] + ['received ' + r for r in RECEIVED] + ['falsy value', 'empty trace', 'marking absent', 'no rows', 'big id']


def u32(rng):
    return rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])


def i64(rng):
    return rng.choice([0, 1, 5, -1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, rng.randrange(1000)])


def u64(rng):
    return rng.choice([0, 1, 5, 2 ** 53 + 1, 2 ** 64 - 1, rng.randrange(1000)])


def seqs(rng, item):
    return [[item() for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(rng.choice([0, 1, 2, 4]))]


def same_float(a, b):
    return f32(float(a)) == f32(float(b))


def send(rng, mon, kind, texts):
    if kind == 'string':
        s = rng.choice(texts)
        v, exp = V.StringContextValue(s), {'string': s}
    elif kind == 'float':
        x = rng.choice([0.0, 0.1, -3.5, rng.uniform(-1e6, 1e6), 1])
        v, exp = V.FloatContextValue(x), {'float': f32(x)}
    elif kind == 'uint32':
        x = u32(rng)
        v, exp = V.Uint32ContextValue(x), {'uint32': x}
    elif kind == 'bool':
        x = rng.random() < 0.5
        v, exp = V.BoolContextValue(x), {'bool': x}
    elif kind == 'hashes_log':
        x = seqs(rng, lambda: u64(rng))
        v, exp = V.HashesLogContextValue(x), {'hashes_log': {'log': {'traces': [{'events': list(t)} for t in x]}}}
        if any(not t for t in x):
            mon.event('empty trace')
    elif kind == 'names_log':
        x = seqs(rng, lambda: rng.choice(texts))
        v, exp = V.NamesLogContextValue(x), {'names_log': {'log': {'traces': [{'events': list(t)} for t in x]}}}
    elif kind == 'enum':
        a, b = rng.choice(texts), rng.choice(texts)
        v, exp = V.EnumContextValue(a, b), {'enum': {'enumType': a, 'value': b}}
    elif kind == 'strings':
        x = [rng.choice(texts) for _ in range(rng.randint(0, 5))]
        v, exp = V.StringsContextValue(list(x)), {'strings': {'strings': x}}
    elif kind == 'event_log_info':
        a, b, c = u32(rng), u32(rng), u32(rng)
        v = V.EventLogInfo(events_count=a, event_classes_count=b, traces_count=c) if rng.random() < 0.5 else V.EventLogInfo(a, b, c)
        exp = {'event_log_info': {'events_count': a, 'event_classes_count': b, 'traces_count': c}}
    else:
        v, exp = PipelineContextValue(Pipeline2()), {'pipeline': {'parts': []}}
    for _ in range(2):
        g = mon.call(v.to_grpc_context_value, what='to_grpc ' + kind)
        got = wire.read('GrpcContextValue', g)
        mon.equal(got, exp, 'the value arrives differently at the backend', kind=kind)
    inner = list(exp.values())[0]
    if not inner:
        mon.event('falsy value')
    mon.distinct(kind, repr(exp)) if len(repr(exp)) > 25 else None


def recv(rng, mon, kind, texts):
    def via(name, kw, cls):
        m = wire.cls(name)(**kw)
        return cls.FromString(m.SerializeToString())
    if kind == 'names':
        x = seqs(rng, lambda: rng.choice(texts))
        m = via('GrpcNamesEventLogContextValue', {'log': {'traces': [{'events': t} for t in x]}}, C.GrpcNamesEventLogContextValue)
        mon.equal(mon.call(V.from_grpc_names_log, m), x, 'the names log arrives differently')
        mon.distinct(kind, x)
    elif kind == 'colors':
        x = seqs(rng, lambda: dict(color=dict(red=rng.randrange(256), green=rng.randrange(256), blue=rng.randrange(256)), start_index=u32(rng), length=u32(rng),
                                   name=rng.choice(texts)))
        m = via('GrpcColorsEventLog', {'traces': [{'event_colors': t} for t in x]}, C.GrpcColorsEventLog)
        r = mon.call(V.from_grpc_colors_log, m)
        got = [[(c.color.red, c.color.green, c.color.blue, c.start_pos, c.length, c.name) for c in t] for t in r]
        exp = [[(c['color']['red'], c['color']['green'], c['color']['blue'], c['start_index'], c['length'], c['name']) for c in t] for t in x]
        mon.equal(got, exp, 'the coloured log arrives differently')
        mon.distinct(kind, repr(x))
    elif kind == 'info':
        x = dict(events_count=u32(rng), traces_count=u32(rng), event_classes_count=u32(rng))
        r = mon.call(V.from_grpc_event_log_info, via('GrpcEventLogInfo', x, C.GrpcEventLogInfo))
        mon.equal({k: getattr(r, k) for k in x}, x, 'the log information arrives differently')
        mon.equal(wire.read('GrpcContextValue', r.to_grpc_context_value()), {'event_log_info': x}, 'the log information does not survive a round trip')
        mon.distinct(kind, repr(x))
    elif kind == 'net':
        ids = list({i64(rng) for _ in range(6)} | set(range(10, 20)))
        rng.shuffle(ids)
        ps, ts = ids[:rng.randint(0, 5)], ids[6:6 + rng.randint(0, 4)]
        if any(abs(i) > 2 ** 53 for i in ps + ts):
            mon.event('big id')
        arc = lambda: dict(id=i64(rng), placeId=rng.choice(ps or [0]), tokens_count=i64(rng))
        x = dict(places=[dict(id=p, name=rng.choice(texts)) for p in ps],
                 transitions=[dict(id=t, incomingArcs=[arc() for _ in range(rng.randint(0, 3))], outgoingArcs=[arc() for _ in range(rng.randint(0, 3))],
                                   data=rng.choice(texts)) for t in ts])
        for k in ('initial_marking', 'final_marking'):
            if rng.random() < 0.7:
                x[k] = dict(markings=[dict(placeId=rng.choice(ps or [3]), tokensCount=i64(rng)) for _ in range(rng.randint(0, 3))])
            else:
                mon.event('marking absent')
        r = mon.call(V.from_grpc_petri_net, via('GrpcPetriNet', x, M.GrpcPetriNet))
        mon.check(isinstance(r, PetriNet), 'not a net')
        arcs = lambda l: [(a.id, a.place_id, a.tokens_count) for a in l]
        got = dict(places=[(k, p.id, p.name) for k, p in r.places.items()],
                   transitions=[(k, t.id, arcs(t.incoming_arcs), arcs(t.outgoing_arcs), t.data) for k, t in r.transitions.items()])
        earcs = lambda l: [(a['id'], a['placeId'], a['tokens_count']) for a in l]
        exp = dict(places=[(p['id'], p['id'], p['name']) for p in x['places']],
                   transitions=[(t['id'], t['id'], earcs(t['incomingArcs']), earcs(t['outgoingArcs']), t['data']) for t in x['transitions']])
        mon.equal(got, exp, 'the net arrives differently')
        for k in ('initial_marking', 'final_marking'):
            mk = getattr(r, k)
            got = [] if mk is None else [(s.place_id, s.tokens_count) for s in mk.markings]
            mon.equal(got, [(s['placeId'], s['tokensCount']) for s in x.get(k, {}).get('markings', [])], 'the marking arrives differently', which=k)
        mon.distinct(kind, repr(x))
    elif kind == 'count annotation':
        x = {i64(rng): i64(rng) for _ in range(rng.randint(0, 5))}
        m = via('GrpcCountAnnotation', {'annotations': [dict(entityId=k, count=v) for k, v in x.items()]}, M.GrpcCountAnnotation)
        mon.equal(mon.call(V.from_grpc_count_annotation, m), {k: str(v) for k, v in x.items()}, 'the annotation arrives differently')
        mon.distinct(kind, repr(x))
    elif kind == 'frequency annotation':
        x = {i64(rng): f32(rng.choice([0, 1, 0.1, 1 / 3, rng.random(), 1e-5])) for _ in range(rng.randint(0, 5))}
        m = via('GrpcFrequenciesAnnotation', {'annotations': [dict(entityId=k, frequency=v) for k, v in x.items()]}, M.GrpcFrequenciesAnnotation)
        r = mon.call(V.from_grpc_frequency_annotation, m)
        mon.check(set(r) == set(x) and all(isinstance(v, str) and same_float(v, x[k]) for k, v in r.items()), 'the annotation arrives differently', arrived=r, sent=x)
        mon.distinct(kind, repr(x))
    elif kind in ('dataset', 'labeled dataset'):
        n, k = rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 2, 4])
        odd = [float('nan'), float('inf'), -float('inf'), -0.0, 1e-40] if rng.random() < 0.3 else [0]
        rows = [[f32(rng.choice([0, 1, rng.uniform(-5, 5), rng.choice(odd)])) for _ in range(k)] for _ in range(n)]
        cols = [rng.choice(texts) for _ in range(k)] if rng.random() < 0.3 else [f'{rng.choice(texts)}{i}' for i in range(k)]
        names = [rng.choice(texts) for _ in range(n)]
        ds = dict(matrix=dict(rows=[dict(values=r) for r in rows]), columnsNames=cols, rowNames=names)
        if n == 0:
            mon.event('no rows')
        w = dict(sent=ds)
        if kind == 'dataset':
            df = mon.call(V.from_grpc_ficus_dataset, via('GrpcDataset', ds, M.GrpcDataset))
        else:
            labels = [rng.choice([0, 1, 2, -1, 2 ** 31 - 1]) for _ in range(n)]
            w['labels'] = labels
            colors = [dict(red=rng.randrange(256), green=3, blue=4) for _ in labels]
            df = mon.call(V.from_grpc_labeled_dataset, via('GrpcLabeledDataset', dict(dataset=ds, labels=labels, labelsColors=colors), M.GrpcLabeledDataset))
            mon.check(const_cluster_labels in df.columns, 'there is no label column', **w)
            mon.equal([int(v) for v in df[const_cluster_labels]], labels, 'the labels arrive differently', **w)
            mon.equal(list(df.columns).index(const_cluster_labels), len(cols), 'the label column is not the last', **w)
            df = df.iloc[:, [i for i, c in enumerate(df.columns) if c != const_cluster_labels]]
        mon.equal(list(df.columns), cols, 'the columns arrive differently', **w)
        mon.equal(list(df.index), names, 'the row names arrive differently', **w)
        mon.equal([[repr(float(v)) for v in r] for r in df.values.tolist()], [[repr(v) for v in r] for r in rows], 'the values arrive differently', **w)
        mon.distinct(kind, repr(ds))
    else:
        ids = list({u64(rng) for _ in range(8)})
        x = dict(nodes=[dict(id=i, data=rng.choice(texts)) for i in ids],
                 edges=[dict(from_node=rng.choice(ids), to_node=rng.choice(ids), data=rng.choice(texts)) for _ in range(rng.randint(0, 6))])
        r = mon.call(V.from_grpc_graph, via('GrpcGraph', x, C.GrpcGraph))
        mon.check(isinstance(r, Graph), 'not a graph')
        mon.equal([(n.id, n.data) for n in r.nodes], [(n['id'], n['data']) for n in x['nodes']], 'the nodes arrive differently')
        mon.equal([(e.from_node, e.to_node, e.data) for e in r.edges], [(e['from_node'], e['to_node'], e['data']) for e in x['edges']], 'the edges arrive differently')
        mon.distinct(kind, repr(x))


def run_case(rng, index, mon):
    texts = gen.alphabet(rng, k=5) + ['']
    k = index % (len(SENT) + len(RECEIVED))
    if k < len(SENT):
        mon.event('sent ' + SENT[k])
        send(rng, mon, SENT[k], texts)
    else:
        kind = RECEIVED[k - len(SENT)]
        mon.event('received ' + kind)
        recv(rng, mon, kind, texts)
    if index < 30:
        mon.sample({'case': k, 'texts': texts[:3]})

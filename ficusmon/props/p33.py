"""P33: what the client shows, prints and saves for a result of the backend is what that result says."""
import os
import tempfile
import uuid

import numpy as np
import pandas as pd
from matplotlib.colors import to_hex

from .. import gen, draw, wire, backend
from ..draw import plt
from ..wire import f32
from ..wireparts import *
from ..wireparts import make, U as _U
from . import p28, p35
from .p32 import printed
from python.ficus.legacy.analysis import event_log_analysis as EA
from python.ficus.legacy.analysis.event_log_analysis import Color, ColoredRectangle, draw_colors_event_log
from python.ficus.legacy.analysis.event_log_analysis_canvas import draw_colors_event_log_canvas
from python.ficus.legacy.discovery.petri_net import PetriNet, Place, Transition, Arc, Marking, SinglePlaceMarking, draw_petri_net
from python.ficus.legacy.discovery.graph import Graph, GraphNode, GraphEdge, draw_graph

ID = 'P33'
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 8000}
RULE = ('pipelines of parts with effects, also nested, run against a scripted backend that answers each part any number of times; everything shown, printed '
        'and written is recorded at the library boundary and compared with the same values drawn directly from objects the harness builds '
        'itself; non-trivial: at least two answers')
ASSUMPTIONS = ['the drawing functions themselves are judged by the properties about drawings', 'a coloured log has at least one trace, a dataset at least one row']
KINDS = ['PrintEventLog2', 'PrintEventLogInfo2', 'PrintNumberOfUnderlyingEvents2', 'ClusterizeActivitiesFromTracesKMeans', 'ClusterizeActivitiesFromTracesKMeansGridSearch',
         'ClusterizeActivitiesFromTracesDbscan', 'VisualizeTracesActivities2', 'ClusterizeLogTracesDbscan', 'ViewPetriNet2', 'ViewDirectlyFollowsGraph2', 'ViewGraph2',
         'AnnotatePetriNetWithCount2', 'AnnotatePetriNetWithFrequency2', 'AnnotatePetriNetWithTraceFrequency2'] + \
        [n for n in NAMES if n.startswith('Draw') or n.startswith('TracesDiversity')]
NESTED = ['DiscoverActivitiesUntilNoMore2', 'ExecuteWithEachActivityLog2', 'PrintEventlogInfoBeforeAfter', 'ClusterizeLogTracesDbscan']
REQUIRED_EVENTS = KINDS + ['figure', 'canvas', 'saved figure', 'saved canvas', 'exported', 'nested answer', 'answered twice', 'hidden visualisation', 'not answered']
METHODS = {DatasetVisualizationMethod.Pca: EA.visualize_dataset_pca, DatasetVisualizationMethod.TSNE: EA.visualize_dataset_tsne,
           DatasetVisualizationMethod.Isomap: EA.visualize_dataset_isomap, DatasetVisualizationMethod.MDS: EA.visualize_dataset_mds}
SERVER = None


def worker_start(mon):
    global SERVER
    SERVER = backend.Backend()


def worker_end(mon):
    SERVER.stop()


def coloured(rng, texts):
    cols = {n: (rng.randrange(256), rng.randrange(256), rng.randrange(256)) for n in texts}
    rows = []
    for _ in range(rng.randint(1, 4) if rng.random() < 0.9 else rng.randint(20, 60)):
        pos, row = 0, []
        for _ in range(rng.randint(0, 5)):
            n, l = rng.choice(texts), rng.choice([1, 1, 3])
            row.append((cols[n], pos, l, n))
            pos += l
        rows.append(row)
    w = {'colors_log': {'traces': [{'event_colors': [dict(color=dict(red=c[0], green=c[1], blue=c[2]), start_index=p, length=l, name=n) for c, p, l, n in r]} for r in rows]}}
    return w, lambda: [[ColoredRectangle(Color(*c), p, l, n) for c, p, l, n in r] for r in rows]


def net(rng, texts):
    ps, ts = rng.sample(range(100), rng.randint(1, 4)), rng.sample(range(100, 200), rng.randint(0, 3))
    n = iter(range(1000))
    arc = lambda: (next(n), rng.choice(ps), 1)
    tr = [(t, [arc() for _ in range(rng.randint(0, 2))], [arc() for _ in range(rng.randint(0, 2))], rng.choice(texts)) for t in ts]
    names = {p: rng.choice(texts) for p in ps}
    marks = [rng.sample(ps, rng.randint(0, 1)) for _ in range(2)]
    a = lambda l: [dict(id=i, placeId=p, tokens_count=k) for i, p, k in l]
    w = {'petriNet': dict(places=[dict(id=p, name=names[p]) for p in ps], transitions=[dict(id=t, incomingArcs=a(i), outgoingArcs=a(o), data=d) for t, i, o, d in tr],
                          initial_marking=dict(markings=[dict(placeId=p, tokensCount=1) for p in marks[0]]),
                          final_marking=dict(markings=[dict(placeId=p, tokensCount=1) for p in marks[1]]))}

    def build():
        r = PetriNet()
        for p in ps:
            r.places[p] = Place(p, names[p])
        for t, i, o, d in tr:
            x = r.transitions[t] = Transition(t)
            x.incoming_arcs, x.outgoing_arcs, x.data = [Arc(*k) for k in i], [Arc(*k) for k in o], d
        r.initial_marking, r.final_marking = (Marking([SinglePlaceMarking(p, 1) for p in m]) for m in marks)
        return r
    return w, build, [k[0] for t in tr for k in t[1] + t[2]]


def graph(rng, texts):
    ids = rng.sample(range(100), rng.randint(1, 5))
    ns = [(i, rng.choice(texts)) for i in ids]
    es = [(rng.choice(ids), rng.choice(ids), rng.choice(texts)) for _ in range(rng.randint(0, 5))]
    w = {'graph': dict(nodes=[dict(id=i, data=d) for i, d in ns], edges=[dict(from_node=a, to_node=b, data=d) for a, b, d in es])}

    def build():
        g = Graph()
        g.nodes, g.edges = [GraphNode(*n) for n in ns], [GraphEdge(*e) for e in es]
        return g
    return w, build


def dataset(rng, texts):
    n, k = rng.randint(1, 5), rng.randint(1, 4)
    rows = [[f32(rng.choice([0, 1, rng.uniform(-5, 5)])) for _ in range(k)] for _ in range(n)]
    cols, names = [f'c{i}' for i in range(k)], [rng.choice(texts) for _ in range(n)]
    w = dict(matrix=dict(rows=[dict(values=r) for r in rows]), columnsNames=cols, rowNames=names)
    return w, n, lambda: pd.DataFrame(rows, columns=cols, index=names)


def answer(rng, m, texts):
    """([(key, value on the wire)], what the user must see as a call)"""
    L, n = m.local, m.name
    if n == 'PrintEventLog2':
        log = [[rng.choice(texts) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
        return [('names_event_log', {'names_log': {'log': {'traces': [{'events': t} for t in log]}}})], lambda: [print(t) for t in log]
    if n == 'PrintEventLogInfo2':
        e, c, t = rng.sample(range(1000), 3)
        return [('event_log_info', {'event_log_info': dict(events_count=e, event_classes_count=c, traces_count=t)})], \
            lambda: print(f'EventLogInfo(events_count={e}, event_classes_count={c}, traces_count={t})')
    if n == 'PrintNumberOfUnderlyingEvents2':
        v = rng.choice([0, 1, 2 ** 32 - 1, rng.randrange(1000)])
        return [('underlying_events_count', {'uint32': v})], lambda: print(f'Underlying events count: {v}')
    g = dict(L)
    if n in ('ViewPetriNet2',) or n.startswith('Annotate'):
        w, build, arcs = net(rng, texts)
        vals = [('petri_net', w)]
        if n != 'ViewPetriNet2':
            some = rng.sample(arcs, rng.randint(0, len(arcs)))
            if 'Count' in n:
                ann = {a: rng.choice([0, 3, 10 ** 12]) for a in some}
                vals.append(('petri_net_count_annotation', {'count_annotation': {'annotations': [dict(entityId=k, count=v) for k, v in ann.items()]}}))
            else:
                ann = {a: f32(rng.choice([0.0, 0.5, 1.0, rng.random()])) for a in some}
                k = 'petri_net_trace_frequency_annotation' if 'Trace' in n else 'petri_net_frequency_annotation'
                vals.append((k, {'frequency_annotation': {'annotations': [dict(entityId=k, frequency=v) for k, v in ann.items()]}}))
            g['annotation'] = {k: str(v) for k, v in ann.items()}
        return vals, lambda: draw_petri_net(build(), **g)
    if n.startswith('View') and 'Graph' in n:
        w, build = graph(rng, texts)
        return [('graph', w)], lambda: draw_graph(build(), **g)
    if 'Clusterize' in n or n == 'VisualizeTracesActivities2':
        w, k, build = dataset(rng, texts)
        show, method = g.pop('show_visualization', True), METHODS[g.pop('visualization_method')]
        pos = lambda df, colors, col: method(df, g['n_components'], colors, g['fig_size'], g['view_params'], g['font_size'], g['legend_cols'], g['save_path'], col)
        if n == 'VisualizeTracesActivities2':
            return [('traces_activities_dataset', {'dataset': w})], lambda: pos(build(), {}, None)
        labels = [rng.choice([0, 1, 2, 5]) for _ in range(k)]
        cols = {l: (rng.randrange(256), rng.randrange(256), rng.randrange(256)) for l in set(labels)}
        v = {'labeled_dataset': dict(dataset=w, labels=labels, labelsColors=[dict(zip(('red', 'green', 'blue'), cols[l])) for l in labels])}

        def direct():
            if show:
                df = build()
                df['cluster_labels'] = labels
                pos(df, {l: Color(*c) for l, c in cols.items()}, 'cluster_labels')
        return [('labeled_log_traces_dataset' if 'LogTraces' in n else 'labeled_traces_activities_dataset', v)], direct
    w, build = coloured(rng, texts)
    fn = draw_colors_event_log_canvas if 'Canvas' in n else draw_colors_event_log
    return [('colors_event_log', w)], lambda: fn(build(), **g)


def axes(ax):
    three = ax.name == '3d'
    out = dict(kind=ax.name, title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), fonts=[a.label.get_fontsize() for a in (ax.xaxis, ax.yaxis)],
               patches=[p for p in draw.rects(ax)] if not three else None, ticks=[draw.ticks(ax.xaxis), draw.ticks(ax.yaxis)] if not three else None)
    out['points'] = [(p35.points(c), sorted(p35.colours(c)), c.get_label() if not str(c.get_label()).startswith('_') else None) for c in ax.collections if len(c.get_facecolor())]
    if three:
        out['view'] = (ax.elev, ax.azim)
    l = ax.get_legend()
    if l is not None:
        out['legend'] = ([t.get_text() for t in l.get_texts()], [t.get_fontsize() for t in l.get_texts()], getattr(l, '_ncols', None))
    return out


def observe(mon, run, paths):
    """Everything run() shows, prints and writes."""
    for p in paths:
        if os.path.exists(p):
            os.remove(p)
    plt.close('all')
    mon.out.seek(0)
    mon.out.truncate()
    del p35.CALLS[:]
    p28.REC = rec = p28.Rec()
    try:
        with draw.recording() as shots:
            res = run()
    finally:
        p28.REC = None
    text = [l for l in printed(mon.out.getvalue()) if l and not l.startswith('Canvas(')]
    canvases = sum('Canvas(' in l for l in mon.out.getvalue().split('\n'))
    figs = [(s.how, s.path, tuple(s.fig.get_size_inches()), [axes(a) for a in s.fig.axes]) for s in shots.shots]
    plt.close('all')
    cv = [(c.width, c.height, c.sync_image_data) for c in rec.canvas]
    for i, c in enumerate(rec.canvas):
        if c.sync_image_data:
            c.set_trait('image_data', b'image %d' % i)
    files = {}
    for p in paths:
        if os.path.exists(p):
            with open(p, 'rb') as f:
                files[p] = f.read()
    calls = [(c.__name__, k, x.tolist()) for c, k, x, _ in p35.CALLS]
    return res, dict(printed=text, canvases=(canvases, cv), drawn=list(p28.flat(rec.ops)), figures=figs, projected=calls, files=files)


def run_case(rng, index, mon):
    p28.install()
    p35.install()
    p35.FAKE = lambda rows, k: np.array([[float((i * 7 + j * 3) % 11) for j in range(k)] for i in range(rows)])
    d = os.path.join(mon.scratch, f'c{index}')
    os.makedirs(d)
    tempfile.tempdir = mon.scratch
    texts = [t.replace('\\', '/').replace('<', '(') for t in gen.alphabet(rng, k=4) if t and not any(ord(ch) < 32 or ch in '\x85\u2028\u2029' for ch in t)] or ['a']
    paths = []

    def local(cls, p):
        if p == 'save_path' and rng.random() < 0.5:
            paths.append(os.path.join(d, rng.choice(['', 'new']), f'f{len(paths)}.png') if 'Draw' in cls and 'Canvas' not in cls else os.path.join(d, f'f{len(paths)}.png'))
            return paths[-1]
        if p == 'export_path' and rng.random() < 0.5:
            paths.append(os.path.join(d, rng.choice(['', 'new']), f'f{len(paths)}.dot'))
            return paths[-1]
        if p == 'annotation' and rng.random() < 0.5:
            return {i: rng.choice(texts) for i in range(4)}
        if p == 'visualization_method':
            return rng.choice(list(METHODS))
        if p == 'engine':
            return rng.choice(['dot', 'neato'])
        if p == 'height_scale' or p == 'width_scale':
            return rng.choice([1, 2, 3])
    made = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.3:
            made.append(make(rng, texts, 0, name=rng.choice(NESTED), local=local, only=KINDS + NESTED))
        else:
            made.append(make(rng, texts, 0, name=KINDS[index % len(KINDS)] if not made else rng.choice(KINDS), local=local, only=KINDS + NESTED))
    pl = Pipeline2(*[m.part for m in made])
    cbs = [c for m in made for c in m.callbacks()]
    top = {id(m.part) for m in made}
    todo = []
    for c in cbs:
        k = rng.choice([0, 1, 1, 1, 2])
        if k == 2:
            mon.event('answered twice')
        if k == 0:
            mon.event('not answered')
        todo += [c] * k
    rng.shuffle(todo)
    todo = todo[:6]
    msgs, direct, hidden = [], [], 0
    for c in todo:
        vals, call = answer(rng, c, texts)
        rng.shuffle(vals)
        mon.event(c.name)
        if id(c.part) not in top:
            mon.event('nested answer')
        if c.local.get('show_visualization') is False:
            mon.event('hidden visualisation')
        msgs.append(backend.part_result(c.part.uuid, vals))
        direct.append(call)
    guid = str(uuid.uuid4())
    msgs.append(backend.success(guid))
    SERVER.default = backend.Session(msgs)
    SERVER.sessions, SERVER.guids = {}, {}
    w = dict(answers=[(c.name, c.local) for c in todo], messages=[repr(wire.plain(m))[:300] for m in msgs])
    res, got = observe(mon, lambda: mon.call(pl.execute, {'backend': SERVER.addr}, what='execute'), paths)
    mon.equal(wire.plain(res), {'finalResult': {'success': {'guid': guid}}}, 'the result is not returned', **w)
    _, exp = observe(mon, lambda: [c() for c in direct], paths)
    for k in exp:
        mon.equal(got[k], exp[k], f'{k}: not what the results of the backend say', **w)
    for f in got['figures']:
        mon.event('figure')
        if f[0] == 'saved':
            mon.event('saved figure')
    for x in got['canvases'][1]:
        mon.event('canvas')
        if x[2]:
            mon.event('saved canvas')
    if any(p.endswith('.dot') for p in got['files']):
        mon.event('exported')
    if len(todo) > 1:
        mon.distinct(repr(w['messages']))
        mon.sample(w['answers'])

"""P27: drawings of Petri nets and graphs contain exactly the net or graph."""
import json
import os
import tempfile

from .. import gen, dot
from python.ficus.legacy.discovery.petri_net import (PetriNet, Place, Transition, Arc, Marking, SinglePlaceMarking, draw_petri_net)
from python.ficus.legacy.discovery.graph import Graph, GraphNode, GraphEdge, draw_graph

ID = 'P27'
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 8000}
RULE = ('random nets (markings, shared names, loops, parallel arcs, annotations) and graphs are shown (the emitted DOT text is read back by '
        'Graphviz) or exported to new and existing directories (the exported file is read back); nodes, shapes, labels and arcs '
        'are compared with the net; non-trivial: at least one arc')
ASSUMPTIONS = ['identifiers are unique over places and transitions', 'labels contain no backslash and are not of the form <...> (Graphviz markup)']
REQUIRED_EVENTS = ['net', 'graph', 'shown', 'exported', 'initial place', 'final place', 'both markings', 'no marking', 'annotated arc', 'place name',
                   'parallel arcs', 'self loop', 'new directory', 'bare file name', 'overwritten', 'overwritten by the same size', 'unlabelled']


def label(rng, pool):
    return rng.choice(pool).replace('\\', '/').replace('<', '(').replace('\x00', '')


def norm(attrs):
    l = attrs.get('label')
    return '' if l in (None, '\\N') else l


def run_case(rng, index, mon):
    tempfile.tempdir = mon.scratch
    d = os.path.join(mon.scratch, f'c{index}')
    os.makedirs(d)
    os.chdir(d)
    pool = gen.alphabet(rng, k=6)
    big = rng.random() < 0.15
    ids = rng.sample(range(0, 400), 100)
    most = 30 if big else 8
    isnet = rng.random() < 0.6
    eng = rng.choice(['dot', 'dot', 'neato'])
    bg, rank, name = rng.choice(['white', 'red', '#00FF00']), rng.choice(['LR', 'TB']), rng.choice(['petri_net', 'x y'])
    kw = {}
    if rng.random() < 0.6:
        kw = dict(name=name, background_color=bg, engine=eng, rankdir=rank)
    else:
        name, bg, rank, eng = 'petri_net', 'white', 'LR', 'dot'
    if isnet:
        mon.event('net')
        net = PetriNet()
        ps, ts = ids[:rng.randint(0, most)], ids[40:40 + rng.randint(0, most)]
        for p in ps:
            net.places[p] = Place(p, label(rng, pool))
        arcs = iter(range(10000))
        edges = []
        ann = {} if rng.random() < 0.6 else None
        for t in ts:
            tr = Transition(t)
            tr.data = label(rng, pool) if rng.random() < 0.9 else None
            if tr.data is None:
                mon.event('unlabelled')
            for lst in (tr.incoming_arcs, tr.outgoing_arcs):
                for _ in range(rng.randint(0, 3) if ps else 0):
                    a = Arc(next(arcs), rng.choice(ps), rng.choice([1, 1, 2]))
                    lst.append(a)
                    lab = ''
                    if ann is not None and rng.random() < 0.5:
                        lab = ann[a.id] = label(rng, pool)
                        mon.event('annotated arc')
                    e = (str(a.place_id), str(t), lab) if lst is tr.incoming_arcs else (str(t), str(a.place_id), lab)
                    if e[:2] in [x[:2] for x in edges]:
                        mon.event('parallel arcs')
                    edges.append(e)
            net.transitions[t] = tr
        ini, fin = set(), set()
        if ps and rng.random() < 0.7:
            ini = set(rng.sample(ps, rng.randint(0, min(rng.choice([2, most]), len(ps)))))
            net.initial_marking = Marking([SinglePlaceMarking(p, rng.choice([1, 1, 2, 5])) for p in ini])
        if ps and rng.random() < 0.7:
            fin = set(rng.sample(ps, rng.randint(0, min(rng.choice([2, most]), len(ps)))))
            net.final_marking = Marking([SinglePlaceMarking(p, rng.choice([1, 1, 2, 5])) for p in fin])
        mon.event('both markings' if ini and fin else 'no marking' if not ini and not fin else 'one marking')
        show = rng.random() < 0.5
        nodes = {}
        for p in ps:
            if p in ini:
                mon.event('initial place')
                nodes[str(p)] = ('circle', '&#9679;')
            elif p in fin:
                mon.event('final place')
                nodes[str(p)] = ('doublecircle', '&#9679;')
            else:
                if show:
                    mon.event('place name')
                nodes[str(p)] = ('circle', net.places[p].name if show else '')
        for t in ts:
            nodes[str(t)] = ('box', net.transitions[t].data or '')
        args = dict(show_places_names=show, annotation=ann, **kw)
        fn, obj = draw_petri_net, net
    else:
        mon.event('graph')
        g = Graph()
        ns = ids[:rng.randint(0, most + 1)]
        g.nodes = [GraphNode(i, label(rng, pool) if rng.random() < 0.9 else None) for i in ns]
        edges = []
        for _ in range(rng.randint(0, 40 if big else 12) if ns else 0):
            a, b = rng.choice(ns), rng.choice(ns)
            e = GraphEdge(a, b, label(rng, pool) if rng.random() < 0.8 else None)
            if a == b:
                mon.event('self loop')
            g.edges.append(e)
            edges.append((str(a), str(b), e.data or ''))
        nodes = {str(n.id): ('circle', n.data or '') for n in g.nodes}
        args, fn, obj = dict(kw), draw_graph, g
    w = dict(nodes=nodes, edges=edges)
    if rng.random() < 0.6:
        mon.event('shown')
        mon.out.seek(0)
        mon.out.truncate()
        mon.call(fn, obj, **args)
        text = mon.out.getvalue()
        mon.check('digraph' in text, 'nothing was shown', shown=text)
        gs, err = dot.parse(text[text.index('digraph'):])
    else:
        mon.event('exported')
        ext = rng.choice(['dot', 'json', 'dot'])
        path = rng.choice([f'bare.{ext}', os.path.join(d, f'x.{ext}'), os.path.join(d, 'new', 'deep', f'x.y.{ext}')])
        if 'new' in path:
            mon.event('new directory')
        elif os.path.dirname(path) == '':
            mon.event('bare file name')
        if rng.random() < 0.3 and 'new' not in path:
            mon.event('overwritten')
            size = 3
            if rng.random() < 0.4:      # a previous file of just the same size
                mon.event('overwritten by the same size')
                mon.call(fn, obj, export_path=path, **args)
                size = os.path.getsize(path)
            with open(path, 'w') as f:
                f.write('o' * size)
        mon.call(fn, obj, export_path=path, **args)
        mon.check(os.path.exists(path), 'the drawing is not where it was exported to', path=path, found=os.listdir(d))
        with open(path, encoding='utf-8') as f:
            text = f.read()
        if ext == 'json':
            try:
                raw = json.loads(text)
            except ValueError:
                mon.check(False, 'the exported file is not a drawing', text=text)
            objs = {o['_gvid']: o for o in raw.get('objects', [])}
            gs, err = [(raw['name'], {o['name']: o for o in objs.values()}, [(objs[e['tail']]['name'], objs[e['head']]['name'], e) for e in raw.get('edges', [])], raw)], None
        else:
            gs, err = dot.parse(text)
    mon.check(gs is not None and len(gs) == 1, 'Graphviz cannot read what was drawn', error=err, text=text, **w)
    gname, gn, ge, raw = gs[0]
    mon.equal({k: (v.get('shape'), norm(v)) for k, v in gn.items()}, nodes, 'the nodes of the drawing are wrong', text=text)
    mon.equal(sorted((a, b, norm(e)) for a, b, e in ge), sorted(edges), 'the arcs of the drawing are wrong', text=text)
    mon.equal((gname, raw.get('bgcolor'), raw.get('rankdir')), (name, bg, rank), 'the settings of the drawing are wrong')
    if edges:
        mon.distinct(sorted(nodes.items()), sorted(edges))
        mon.sample((nodes, edges))

"""P22: event class trees and the graphs built from class trees and activities."""
import os

from ..acts import *
from .. import dot
from .p19 import HIER
from python.ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import (
    BuildActivityGraph, BuildEventClassGraph, BuildEventClassTree, SerializeGraph, DrawGraph, DrawEventClassTree,
    DrawActivitiesGraphByEventClassLevels)
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawActivitiesGraph
from python.ficus.legacy.analysis.patterns.patterns_graphs import build_graph, draw_event_class_tree
from python.ficus.legacy.analysis.patterns.event_log_patterns import build_class_tree

ID = 'P22'
LEVEL = 'exploration'
CASES = {'quick': 700, 'thorough': 8000}
RULE = ('random logs with hierarchical and colliding class names; the class tree is compared layer by layer with a reference '
        'grouping; every graph is read back by Graphviz itself and its nodes and edges are compared with the forest; rendered '
        'files are read back from disk; non-trivial: at least one edge between two classes or activities')
ASSUMPTIONS = ['no event class is called "root"', 'names contain no backslash and are not of the form <...> (Graphviz markup)']
REQUIRED_EVENTS = ['class tree', 'class graph', 'activity graph', 'with root', 'without root', 'serialized', 'rendered file', 'level file',
                   'name with colon', 'same name in two layers', 'custom node name', 'attributes set', 'hash names']


def clean(n):
    n = n.replace('\\', '/').replace('\x00', '')
    if n.strip().startswith('<') and n.strip().endswith('>'):
        n = 'm' + n
    return n if n.strip() not in ('root', '') else 'r'


def ref_tree(names, exts):
    """layers of {class: [child classes]} from the bottom up"""
    layers = [{n: [] for t in names for n in t}]
    for f in exts:
        up = {}
        for n in layers[-1]:
            up.setdefault(f(n), []).append(n)
        layers.append(up)
    return layers


def check_tree(mon, roots, layers, **w):
    cur = list(roots)
    for depth in range(len(layers) - 1, -1, -1):
        ref = layers[depth]
        mon.equal(sorted(n.name for n in cur), sorted(ref), f'the classes of layer {depth} are wrong', **w)
        for n in cur:
            mon.equal(sorted(c.name for c in n.child_nodes), sorted(ref[n.name]), f'the sub-classes of {n.name!r} in layer {depth} are wrong', **w)
        cur = [c for n in cur for c in n.child_nodes]
    mon.equal(cur, [], 'the tree is deeper than the number of levels', **w)


def ref_graph(roots, name_of, root):
    nodes, edges = set(), set()

    def go(n, parent):
        nodes.add(name_of(n))
        if parent is not None:
            edges.add((name_of(n), parent))
        for c in n.child_nodes:
            go(c, name_of(n))
    for r in roots:
        go(r, 'root' if root else None)
    if root and roots:
        nodes.add('root')
    return nodes, edges


def check_graph(mon, src, roots, name_of, root, what, gname=None, **w):
    gs, err = dot.parse(src)
    mon.check(gs is not None and len(gs) == 1, f'{what}: Graphviz cannot read the graph', error=err, source=src, **w)
    name, nodes, edges, raw = gs[0]
    en, ee = ref_graph(roots, name_of, root)
    mon.equal(set(nodes), en, f'{what}: the nodes of the graph are wrong', source=src, **w)
    mon.equal({(t, h) for t, h, _ in edges}, ee, f'{what}: the edges of the graph are wrong', source=src, **w)
    if gname is not None:
        mon.equal(name, gname, f'{what}: the graph has the wrong name', **w)
    return raw


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def run_case(rng, index, mon):
    colon = rng.random() < 0.3
    alpha = gen.alphabet(rng, pool=rng.choice(['dotted', 'dotted', 'letters', 'words', 'prefixes', 'unicode']), k=rng.choice([2, 4, 8, 12]))
    alpha = [clean(a) for a in alpha]
    if colon:
        alpha = [a.replace('.', rng.choice([':', '::', ':'])) if '.' in a else a + ':x' for a in alpha]
        mon.event('name with colon')
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([4, 8, 14]), alpha=alpha, big=0.02)
    log = fx.log_of_names(names)
    snap = fx.snapshot(log)
    w = dict(names=names)
    exts = [rng.choice([lambda n: n.rsplit('.', 1)[0], lambda n: n.split('.')[0], lambda n: n, lambda n: n[:1] or 'e', lambda n: 'all',
                        lambda n: n.split(':')[0]]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    exts = [(lambda f: lambda n: clean(f(n)))(f) for f in exts]
    layers = ref_tree(names, exts)
    root = rng.random() < 0.6
    mon.event('with root' if root else 'without root')
    mon.event('class tree')
    if rng.random() < 0.5:
        ctx = mon.call(Pipeline(UseExistingLog(), BuildEventClassTree(exts)), log, what='BuildEventClassTree')
        tree = A.event_class_tree(ctx)
    else:
        tree = mon.call(build_class_tree, log, exts)
        ctx = PipelinePartResult().with_log(log).with_event_class_tree(tree)
    check_tree(mon, tree, layers, **w)
    allnames = [set(l) for l in layers]
    if any(a & b for a, b in zip(allnames, allnames[1:])):
        mon.event('same name in two layers')
    mon.equal(fx.snapshot(log), snap, 'building the class tree changed the log')
    kw = {}
    name_of = lambda n: n.name
    if rng.random() < 0.3:
        mon.event('custom node name')
        name_of = lambda n: f'{n.name} #{len(n.child_nodes)}'
        kw['node_name_creator'] = name_of
    attrs = rng.random() < 0.3
    if attrs:
        mon.event('attributes set')
        kw['graph_attributes_setter'] = lambda g: g.attr(rankdir='BT')
    ctx = mon.call(Pipeline(BuildEventClassGraph('Event Classes', root, **kw), SerializeGraph()), ctx, what='BuildEventClassGraph')
    mon.event('class graph')
    src = str(A.graph(ctx))
    raw = check_graph(mon, src, tree, name_of, root, 'class graph', 'Event Classes', **w)
    if attrs:
        mon.equal(raw.get('rankdir'), 'BT', 'the attributes of the graph were not set')
    mon.event('serialized')
    lines = A.serialized_graph(ctx).split('\n')
    mon.check(lines == sorted(lines), 'the serialised graph is not sorted')
    mon.equal([l for l in lines if l.strip() not in ('', '}')], sorted(l for l in src.strip().split('\n')[1:-1] if l.strip()), 'the serialised graph is not the graph', **w)
    if any(len(l) > 1 for l in layers):
        mon.distinct(names, len(exts), root)

    # activities
    nl = rng.choice([1, 2])
    actx = DiscoverActivitiesForSeveralLevels(HIER[:nl], ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, adjusting_mode=AdjustingMode.FromAllLog)(
        PipelinePartResult().with_log(log))
    acts = A.activities(actx)
    by_level = {}
    for a in acts:
        by_level.setdefault(a.activity_level, []).append(a)
    draw = rng.random() < 0.15
    for level, roots in by_level.items():
        r = mon.call(Pipeline(BuildActivityGraph(level, 'G', root, **kw), SerializeGraph()), actx, what='BuildActivityGraph')
        mon.event('activity graph')
        check_graph(mon, str(A.graph(r)), roots, name_of, root, 'activity graph', 'G', **w)
        if any(a.child_nodes for a in roots):
            mon.distinct(names, level, root, 'activities')
            mon.sample((names, [a.name for a in roots]))
    if not draw:
        return
    d = os.path.join(mon.scratch, f'd{index}')
    os.makedirs(d)
    os.chdir(d)
    base = rng.choice(['out', os.path.join(d, 'g'), 'sub/graph', 'out.v1'])
    kind = rng.choice(['tree', 'levels', 'graph', 'shown', 'activities', 'hashes'])
    if kind == 'tree':
        if rng.random() < 0.5:
            mon.call(DrawEventClassTree(root, base), ctx, what='DrawEventClassTree')
        else:
            mon.call(draw_event_class_tree, tree, base, root)
        want = {base: (tree, lambda n: n.name)}
    elif kind == 'levels':
        mon.call(DrawActivitiesGraphByEventClassLevels(base, add_root_node=root), actx, what='DrawActivitiesGraphByEventClassLevels')
        b, e = os.path.splitext(base)
        want = {f'{b}_{l}{e}': (r, lambda n: n.name) for l, r in by_level.items()}
        mon.event('level file', len(want))
    elif kind == 'graph':
        mon.call(Pipeline(BuildEventClassGraph('Event Classes', root, **kw), DrawGraph(base)), ctx, what='DrawGraph')
        want = {base: (tree, name_of)}
    elif kind == 'shown':
        mon.call(Pipeline(BuildEventClassGraph('Event Classes', root, **kw), DrawGraph()), ctx, what='DrawGraph shown')
        want = None
    elif kind == 'activities':
        mon.call(DrawActivitiesGraph(base, False, root), actx, what='DrawActivitiesGraph')
        want = {base: (acts, lambda n: '\n'.join(n.name.split('::')))}
    else:
        mon.event('hash names')
        mon.call(DrawActivitiesGraph(base, True, root), actx, what='DrawActivitiesGraph')
        want = {base: (acts, lambda n: str(hash(n)))}
    if want is None:
        found = [f for f in files(d) if not f.endswith('.png')]
        mon.equal(len(found), 1, 'showing a graph did not produce one source file', found=found)
        want = {found[0]: (tree, name_of)}
    for path, (roots, nm) in want.items():
        mon.event('rendered file')
        mon.check(os.path.exists(path) and os.path.exists(path + '.png'), 'the graph was not saved where it was asked to be', path=path, found=files(d))
        with open(path, encoding='utf-8') as f:
            check_graph(mon, f.read(), roots, nm, root, 'saved graph', **w)
    mon.equal(len(files(d)), 2 * len(want), 'unexpected files were written', found=files(d))

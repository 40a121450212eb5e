"""P29: nets discovered through the pipeline are those of the log, with its start and end, and are drawn as they are."""
import os
import tempfile
from collections import Counter

import graphviz
import pm4py
from pm4py.objects.log.obj import EventLog, Event, Trace
from pm4py.visualization.petri_net import visualizer as pn_visualizer

from ..acts import *
from .. import dot
from python.ficus.legacy.pipelines.discovery.discovery_parts import (DiscoverPetriNetInductive, DiscoverPetriNetAlpha, DiscoverPetriNetAlphaPlus,
                                                                     DiscoverPetriNetHeuristic, DrawPetriNet)

ID = 'P29'
LEVEL = 'exploration'
CASES = {'quick': 400, 'thorough': 4000}
RULE = ('random logs are discovered through the pipeline parts with random thresholds and, independently, by the mining library on a log built by '
        'the harness; both nets with their markings are compared up to isomorphism of places; nets of the inductive miner must replay '
        'every trace from the start to the end marking; drawings are read back; non-trivial: at least two names and two traces')
ASSUMPTIONS = ['at least one trace, none empty', 'the miner may break ties either way (compared over up to 60 repetitions when the first nets differ)', 'the mining library is trusted for the algorithms themselves']
REQUIRED_EVENTS = ['inductive', 'skewed frequencies', 'alpha', 'alpha plus', 'heuristic', 'noise', 'replayed', 'drawn to file', 'viewed', 'other values kept']


def signature(net, im, fm):
    """Colour refinement of the net with its markings; equal for isomorphic nets."""
    col = {}
    for p in net.places:
        col[p] = ('p', im[p], fm[p])
    for t in net.transitions:
        col[t] = ('t', t.label)
    code = {}

    def intern(x):
        return code.setdefault(x, len(code))
    cur = {n: c for n, c in col.items()}
    for _ in range(6):
        cur = {n: (cur[n] if not isinstance(cur[n], tuple) else cur[n], tuple(sorted((repr(cur[a.source]), a.weight) for a in n.in_arcs)),
                   tuple(sorted((repr(cur[a.target]), a.weight) for a in n.out_arcs))) for n in cur}
        # compress to a stable short text
        import hashlib
        cur = {n: hashlib.md5(repr(c).encode()).hexdigest() for n, c in cur.items()}
    return Counter(cur.values()), len(net.arcs), (sum(im.values()), sum(fm.values()))


def replay(net, im, fm, trace, cap=4000):
    """Whether the trace leads from im to fm (None: too many markings)."""
    trans = [(t.label, tuple((a.source, a.weight) for a in t.in_arcs), tuple((a.target, a.weight) for a in t.out_arcs)) for t in net.transitions]

    def fire(m, pre, post):
        d = dict(m)
        for p, w in pre:
            if d.get(p, 0) < w:
                return None
            d[p] -= w
        for p, w in post:
            d[p] = d.get(p, 0) + w
        return frozenset((p, n) for p, n in d.items() if n)

    def closure(ms):
        seen, q = set(ms), list(ms)
        while q:
            m = q.pop()
            for l, pre, post in trans:
                if l is None:
                    n = fire(m, pre, post)
                    if n is not None and n not in seen:
                        seen.add(n)
                        q.append(n)
                        if len(seen) > cap:
                            return None
        return seen
    cur = closure({frozenset(im.items())})
    for name in trace:
        if cur is None:
            return None
        nxt = {n for m in cur for l, pre, post in trans if l == name and (n := fire(m, pre, post)) is not None}
        if not nxt:
            return False
        cur = closure(nxt)
    return None if cur is None else frozenset(fm.items()) in cur


def own_log(names):
    log = EventLog()
    for t in names:
        tr = Trace()
        for n in t:
            tr.append(Event({'concept:name': n}))
        log.append(tr)
    return log


def parsed(src):
    gs, err = dot.parse(src)
    if gs is None:
        return err
    _, nodes, edges, raw = gs[0]
    return (sorted((k, v.get('shape'), v.get('label'), v.get('fillcolor'), v.get('penwidth'), v.get('style')) for k, v in nodes.items()), sorted((a, b) for a, b, _ in edges),
            raw.get('rankdir'), raw.get('bgcolor'))


def run_case(rng, index, mon):
    d = os.path.join(mon.scratch, f'c{index}')
    os.makedirs(d)
    os.chdir(d)
    tempfile.tempdir = d
    names = gen.names_log(rng, max_traces=rng.choice([2, 5, 8]), max_len=rng.choice([3, 6]), alpha=gen.alphabet(rng, pool=rng.choice(['letters', 'words', 'dotted', 'prefixes']), k=rng.choice([2, 3, 5])),
                          allow_empty_traces=False, allow_empty_log=False, min_traces=1, min_len=1, big=0, huge=0)
    names = [t * 3 if rng.random() < 0.2 and len(t) < 4 else t for t in names] * rng.choice([1, 1, 2])
    if rng.random() < 0.3:
        names = [t for t in names for _ in range(rng.choice([1, 1, 3, 12]))]
        mon.event('skewed frequencies')
    log = fx.log_of_payloads(gen.payload_log(rng, names, rich=rng.random() < 0.3))
    snap = fx.snapshot(log)
    kind = rng.choice(['inductive', 'inductive', 'alpha', 'alpha plus', 'heuristic', 'heuristic'])
    mon.event(kind)
    own = own_log(names)
    noise = 0
    if kind == 'inductive':
        noise = rng.choice([0, 0, 0.2, 0.2, 0.6, 1.0])
        part = DiscoverPetriNetInductive(noise) if noise or rng.random() < 0.5 else DiscoverPetriNetInductive()
        ref = lambda: pm4py.discover_petri_net_inductive(own, noise_threshold=noise)
        if noise:
            mon.event('noise')
    elif kind == 'alpha':
        part, ref = DiscoverPetriNetAlpha(), lambda: pm4py.discover_petri_net_alpha(own)
    elif kind == 'alpha plus':
        part, ref = DiscoverPetriNetAlphaPlus(), lambda: pm4py.discover_petri_net_alpha_plus(own)
    else:
        th = [rng.choice([0, 0.1, 0.5, 0.9, 1.0]) for _ in range(3)]
        if rng.random() < 0.2:
            th, part = [0.5] * 3, DiscoverPetriNetHeuristic()
        else:
            part = DiscoverPetriNetHeuristic(*th)
        ref = lambda: pm4py.discover_petri_net_heuristics(own, dependency_threshold=th[0], and_threshold=th[1], loop_two_threshold=th[2])
    w = dict(names=names, miner=kind)
    try:
        rnet, rim, rfm = ref()
    except Exception as e:  # the miner itself refuses this log
        mon.event('refused by the miner')
        return
    ctx = PipelinePartResult().with_log(log).with_activity_name('keep')
    res = mon.call(part, ctx, what=kind)
    w2 = A.petri_net(res)
    net, im, fm = w2.petri_net, w2.start_marking, w2.end_marking
    mon.equal(fx.snapshot(log), snap, 'discovering a net changed the log')
    mon.event('other values kept')
    mon.check(A.log(res) is log and A.activity_name(res) == 'keep', 'discovering a net dropped other values of the context')
    same = signature(net, im, fm) == signature(rnet, rim, rfm)
    if not same:
        # the heuristic miner breaks ties by memory addresses: compare what both sides can give
        mon.event('ties')
        mine, theirs, keep = [signature(net, im, fm)], [signature(rnet, rim, rfm)], []
        for k in range(60):
            keep.append([object() for _ in range(rng.randrange(40))])
            try:
                theirs.append(signature(*ref()))
            except Exception:
                continue
            keep.append([object() for _ in range(rng.randrange(40))])
            n2 = A.petri_net(part(PipelinePartResult().with_log(log)))
            mine.append(signature(n2.petri_net, n2.start_marking, n2.end_marking))
            same = any(x in theirs for x in mine)
            if same:
                break
    mon.check(same, 'the discovered net is not the one of the log',
              transitions=sorted(str(t.label) for t in net.transitions), wanted=sorted(str(t.label) for t in rnet.transitions),
              markings=(str(im), str(fm)), reference=(str(rim), str(rfm)), **w)
    labels = {t.label for t in net.transitions} - {None}
    mon.check(labels <= {n for t in names for n in t}, 'the net has a transition for an event that does not occur', labels=sorted(labels), **w)
    if kind == 'inductive' and not noise:
        for t in {tuple(t) for t in names}:
            ok = replay(net, im, fm, t)
            if ok is not None:
                mon.event('replayed')
                mon.check(ok, 'a trace of the log cannot be replayed on the net from its start to its end marking', trace=t, **w)
    if len(names) > 1 and len({n for t in names for n in t}) > 1:
        mon.distinct(names, kind)
        mon.sample((names, kind, len(net.places), len(net.transitions)))
    # drawing
    if rng.random() < 0.25:
        fmt = rng.choice(['dot', 'dot', 'svg'])
        want = parsed(str(pn_visualizer.apply(net, im, fm, parameters={'format': 'dot', 'bgcolor': 'white', 'decorations': None, 'debug': False, 'set_rankdir': 'LR'})))
        if rng.random() < 0.5:
            mon.event('drawn to file')
            path = os.path.join(d, 'net.dot')
            r = mon.call(DrawPetriNet(path), res)
            mon.check(os.path.exists(path), 'the net was not drawn to the requested file', found=os.listdir(d))
            with open(path, encoding='utf-8') as f:
                got = parsed(f.read())
        else:
            mon.event('viewed')
            seen = []
            old = graphviz.Digraph.view
            graphviz.Digraph.view = lambda self, *a, **k: seen.append(str(self))
            try:
                r = mon.call(DrawPetriNet(), res)
            finally:
                graphviz.Digraph.view = old
            mon.equal(len(seen), 1, 'the net was not shown once')
            got = parsed(seen[0])
        mon.check(r is res, 'drawing a net did not hand on the context')
        mon.equal(got, want, 'the drawing is not the one of the discovered net with its markings', **w)

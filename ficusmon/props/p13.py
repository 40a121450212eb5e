"""P13: tandem arrays."""
from .. import gen, fx
from ..gen import NAME
from ..ref_patterns import tandem_arrays, primitive_arrays
from python.ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_tandem_arrays, find_primitive_tandem_arrays
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverTandemArrays
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from python.ficus.legacy.pipelines.contexts.accessors import patterns

ID = 'P13'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random traces rich in repetitions (runs, overlapping and nested tandems, tandems at both ends), all limits on the '
        'block length, event classes; arrays compared with a brute force search; non-trivial: at least one array')
ASSUMPTIONS = ['a block is looked at where it first occurs in the trace, as the discovery defines it']
REQUIRED_EVENTS = ['same log edited in place', 'maximal array', 'primitive array', 'not primitive', 'array at end', 'array at start', 'class extractor', 'part',
                   'limit cuts', 'empty trace', 'three or more repeats']


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([6, 12, 24, 40]), alpha=gen.alphabet(rng, k=rng.choice([1, 2, 2, 3, 3, 4, 6])))
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    limit = rng.choice([0, 2, 3, 4, 5, 6, 10, 20])
    ext = rng.choice([None, None, lambda e: e[NAME], lambda e: e[NAME][:1], lambda e: str(len(e[NAME]))])
    if ext is not None:
        mon.event('class extractor')
    cl = [[(ext(e) if ext else e[NAME]) for e in t] for t in log]
    part = rng.random() < 0.3
    results = {}
    for kind, fn, ref in (('maximal', find_maximal_tandem_arrays, tandem_arrays), ('primitive', find_primitive_tandem_arrays, primitive_arrays)):
        if part:
            mon.event('part')
            k = TandemArrayKind.MaximalArray if kind == 'maximal' else TandemArrayKind.PrimitiveArray
            res = patterns(mon.call(Pipeline(UseExistingLog(), DiscoverTandemArrays(k, limit, ext)), log, what='DiscoverTandemArrays'))
        else:
            res = mon.call(fn, log, max_tandem_array_length=limit, event_class_extractor=ext)
        mon.equal(len(res), len(cl), f'{kind}: not one list of arrays per trace')
        for t, got in zip(cl, res):
            g = [(a.first_pos, a.length, a.repeat_count) for a in got]
            want = ref(t, limit)
            w = dict(trace=t, limit=limit, kind=kind)
            mon.check(len(g) == len(set(g)), 'an array is reported twice', got=g, **w)
            mon.check(set(g) == want, 'the reported tandem arrays are wrong', missing=want - set(g), extra=set(g) - want, **w)
            results.setdefault(kind, []).append(set(g))
            for i, L, c in want:
                mon.event(kind + ' array')
                if i == 0:
                    mon.event('array at start')
                if i + L * c == len(t):
                    mon.event('array at end')
                if c > 2:
                    mon.event('three or more repeats')
            if not t:
                mon.event('empty trace')
            if want != ref(t, 50):
                mon.event('limit cuts')
            if want:
                mon.distinct(t, limit, kind)
                mon.sample((t, limit, kind, sorted(want)))
    for m, p in zip(results.get('maximal', []), results.get('primitive', [])):
        if m - p:
            mon.event('not primitive', len(m - p))
    if rng.random() < 0.2:
        res = mon.call(find_maximal_tandem_arrays, log)
        for t, got in zip(fx.names(log), res):
            mon.equal({(a.first_pos, a.length, a.repeat_count) for a in got}, tandem_arrays(t, 10), 'default limits are wrong', trace=t)
        res = mon.call(find_primitive_tandem_arrays, log)
        for t, got in zip(fx.names(log), res):
            mon.equal({(a.first_pos, a.length, a.repeat_count) for a in got}, primitive_arrays(t, 10), 'default limits are wrong', trace=t)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')

"""P14: maximal repeats."""
from .. import gen, fx
from ..gen import NAME
from ..ref_patterns import maximal_repeats
from python.ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_repeats
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverRepeats
from python.ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource
from python.ficus.legacy.pipelines.contexts.accessors import patterns

ID = 'P14'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random traces rich in repetitions, with and without event classes; the reported repeats are compared, as contents '
        'with a position of occurrence, with a brute force enumeration; non-trivial: at least one repeat')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['same log edited in place', 'repeat', 'repeat longer than 3', 'class extractor', 'part', 'no repeat', 'empty trace', 'overlapping']


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([4, 10, 20, 35]), alpha=gen.alphabet(rng, k=rng.choice([1, 2, 2, 3, 4, 6, 9])))
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    ext = rng.choice([None, None, lambda e: e[NAME], lambda e: e[NAME][:1], lambda e: str(len(e[NAME]))])
    if ext is not None:
        mon.event('class extractor')
    cl = [[(ext(e) if ext else e[NAME]) for e in t] for t in log]
    if rng.random() < 0.3:
        mon.event('part')
        res = patterns(mon.call(Pipeline(UseExistingLog(), DiscoverRepeats(RepeatActivitiesSource.MaximalRepeats, ext)), log, what='DiscoverRepeats'))
    else:
        res = mon.call(find_maximal_repeats, log, ext)
    mon.equal(len(res), len(cl), 'not one list of repeats per trace')
    for t, got in zip(cl, res):
        ref = maximal_repeats(t)
        g = []
        for r in got:
            mon.check(0 <= r.first_pos and r.length > 0 and r.first_pos + r.length <= len(t), 'a repeat lies outside the trace', repeat=r, trace=t)
            g.append(tuple(t[r.first_pos:r.first_pos + r.length]))
        mon.check(len(g) == len(set(g)), 'a repeat is reported twice', got=g, trace=t)
        mon.check(set(g) == set(ref), 'the reported maximal repeats are wrong', missing=set(ref) - set(g), extra=set(g) - set(ref), trace=t)
        for c, ps in ref.items():
            mon.event('repeat')
            if len(c) > 3:
                mon.event('repeat longer than 3')
            if any(b - a < len(c) for a, b in zip(ps, ps[1:])):
                mon.event('overlapping')
        if not ref:
            mon.event('no repeat' if t else 'empty trace')
        else:
            mon.distinct(t)
            mon.sample((t, sorted(ref)))
    mon.equal(fx.snapshot(log), snap, 'the log was changed')

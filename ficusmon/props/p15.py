"""P15: super-maximal and near-super-maximal repeats."""
from .. import gen, fx
from ..gen import NAME
from ..ref_patterns import maximal_repeats, super_maximal, near_super_maximal
from python.ficus.legacy.analysis.patterns.event_log_patterns import find_super_maximal_repeats, find_near_super_maximal_repeats
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverRepeats, AddAllPatterns
from python.ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource, PipelinePartResult
from python.ficus.legacy.pipelines.contexts.accessors import patterns

ID = 'P15'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random traces rich in nested repetitions; the reported repeats are compared with a brute force selection among all '
        'maximal repeats; non-trivial: the three kinds differ')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['same log edited in place', 'super', 'near', 'super differs from near', 'near differs from maximal', 'class extractor', 'part', 'empty trace',
                   'cut', 'cut inside a pattern', 'no patterns']


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=3, max_len=rng.choice([4, 10, 20, 30]), alpha=gen.alphabet(rng, k=rng.choice([1, 2, 2, 3, 4, 6])))
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    cut(rng, mon, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def inside(part, patterns):
    return any(part == p[i:i + len(part)] for p in patterns for i in range(len(p)))


def cut(rng, mon, log):
    """AddAllPatterns cuts every trace into adjacent parts, each the shortest one that no known pattern contains."""
    names = fx.names(log)
    pats = []
    for t in names:
        row = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            if t:
                s = rng.randrange(len(t))
                row.append((s, rng.randint(1, len(t) - s)))
        pats.append(row)
    given = [[SubArrayInEventLog(s, n) for s, n in row] for row in pats]
    snap = fx.snapshot(log)
    res = patterns(mon.call(AddAllPatterns(), PipelinePartResult().with_log(log).with_patterns(given), what='AddAllPatterns'))
    mon.equal(len(res), len(names), 'cutting: not one list of parts per trace')
    for t, row, got in zip(names, pats, res):
        known = [t[s:s + n] for s, n in row]
        mon.event('no patterns', not known and len(t) > 2)
        want, start = [], 0
        for end in range(1, len(t)):
            if not inside(t[start:end], known):
                want.append((start, end - start))
                mon.event('cut')
                mon.event('cut inside a pattern', end - start > 1)
                start = end
        g = [(p.first_pos, p.length) for p in got]
        # what is left at the end is no pattern, however short
        mon.check(g[:len(want)] == want and g[len(want):] in ([], [(start, len(t) - start)]), 'a trace is not cut into the shortest parts that no pattern contains',
                  trace=t, patterns=known, parts=g, shortest=want)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    ext = rng.choice([None, None, lambda e: e[NAME], lambda e: e[NAME][:1], lambda e: str(len(e[NAME]))])
    if ext is not None:
        mon.event('class extractor')
    cl = [[(ext(e) if ext else e[NAME]) for e in t] for t in log]
    part = rng.random() < 0.3
    for kind, fn, src, sel in (('super', find_super_maximal_repeats, RepeatActivitiesSource.SuperMaximalRepeats, super_maximal),
                               ('near', find_near_super_maximal_repeats, RepeatActivitiesSource.NearSuperMaximalRepeats, near_super_maximal)):
        if part:
            mon.event('part')
            res = patterns(mon.call(Pipeline(UseExistingLog(), DiscoverRepeats(src, ext)), log, what='DiscoverRepeats'))
        else:
            res = mon.call(fn, log, ext)
        mon.equal(len(res), len(cl), 'not one list of repeats per trace')
        for t, got in zip(cl, res):
            reps = maximal_repeats(t)
            want = sel(reps)
            g = []
            for r in got:
                mon.check(0 <= r.first_pos and r.length > 0 and r.first_pos + r.length <= len(t), 'a repeat lies outside the trace', repeat=r, trace=t)
                g.append(tuple(t[r.first_pos:r.first_pos + r.length]))
            mon.check(len(g) == len(set(g)), 'a repeat is reported twice', got=g, trace=t)
            mon.check(set(g) == want, f'the reported {kind} maximal repeats are wrong', missing=want - set(g), extra=set(g) - want, trace=t)
            mon.event(kind, len(want))
            if not t:
                mon.event('empty trace')
            if kind == 'near':
                mon.check(super_maximal(reps) <= want, 'reference: super-maximal repeats must be near-super-maximal')
                if want != super_maximal(reps):
                    mon.event('super differs from near')
                if want != set(reps):
                    mon.event('near differs from maximal')
                    mon.distinct(t)
                    mon.sample((t, sorted(want)))
    mon.equal(fx.snapshot(log), snap, 'the log was changed')

"""P11: position entropies: fast = slow = definition; ignoring = removing."""
import math

from .. import gen, fx
from ..ref_entropy import pos_entropies, close, drop
from python.ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace
from python.ficus.legacy.analysis.event_log_analysis_entropy import (
    calculate_position_entropies, calculate_position_entropies_fast, calculate_position_entropy,
    calculate_position_entropy_fast, calculate_position_entropies_sum, calculate_position_entropies_fast_sum,
    PositionEntropyIgnoredEvents, create_events_positions, calculate_pos_entropy_var, calculate_pos_entropy_std)

ID = 'P11'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 40000}
RULE = ('random logs and ignored sets; the straightforward and the fast algorithm (with and without cached positions) are '
        'compared with the definition and with the log where the ignored events were removed; non-trivial: two names and '
        'two non-empty traces')
ASSUMPTIONS = ['at least two non-empty traces remain (the measure is undefined for one)', 'tolerance 1e-9']
REQUIRED_EVENTS = ['same log edited in place', 'fast', 'slow', 'cached positions', 'ignored', 'trace fully ignored', 'sum', 'variance', 'single event']


def same(mon, got, want, what, **w):
    mon.check(set(got) == set(want) and all(close(got[k], want[k]) for k in want), what, got=got, expected=want, **w)


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=8, max_len=10, min_traces=2)
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    known = sorted({n for t in names for n in t})
    for _ in range(2):
        ign = set(rng.sample(known, rng.randint(0, len(known))))
        if rng.random() < 0.1:
            ign.add('absent')
        left = drop(names, ign)
        ref = pos_entropies(left)
        if ref is None:
            continue
        w = dict(names=names, ignored=ign)
        ie = PositionEntropyIgnoredEvents(ign, calculate_events_in_each_trace(log))
        if ign:
            mon.event('ignored')
            if any(t and all(n in ign for n in t) for t in names):
                mon.event('trace fully ignored')
        pos = mon.call(create_events_positions, log)
        mon.event('fast')
        mon.event('slow')
        mon.event('cached positions')
        same(mon, mon.call(calculate_position_entropies, log, ie), ref, 'position entropies differ from the definition', **w)
        same(mon, mon.call(calculate_position_entropies_fast, log, ie), ref, 'fast position entropies differ from the definition', **w)
        same(mon, mon.call(calculate_position_entropies_fast, log, ie, pos), ref, 'fast position entropies with cached positions differ', **w)
        removed = fx.log_of_names(left)
        if left:
            same(mon, mon.call(calculate_position_entropies, removed), ref, 'position entropies differ from the definition', **w)
            same(mon, mon.call(calculate_position_entropies_fast, removed), ref, 'fast position entropies differ from the definition', **w)
        for e in rng.sample(sorted(ref), min(2, len(ref))):
            mon.event('single event')
            for got in (mon.call(calculate_position_entropy, log, e, ie), mon.call(calculate_position_entropy_fast, log, e, ie, pos),
                        mon.call(calculate_position_entropy_fast, log, e, ie)):
                mon.check(close(got, ref[e]), f'position entropy of {e!r} is wrong', got=got, expected=ref[e], **w)
        s = sum(ref.values())
        mon.event('sum')
        for got in (mon.call(calculate_position_entropies_sum, log, ie), mon.call(calculate_position_entropies_fast_sum, log, ie, pos),
                    mon.call(calculate_position_entropies_fast_sum, log, ie)):
            mon.check(close(got, s), 'the sum of position entropies is wrong', got=got, expected=s, **w)
        if len(ref) > 1:
            mon.distinct(names, sorted(ign))
            mon.sample((names, ign, ref))
    ref = pos_entropies(names)
    if ref:
        mon.event('variance')
        mean = sum(ref.values()) / len(ref)
        var = sum((v - mean) ** 2 for v in ref.values()) / len(ref)
        got = mon.call(calculate_pos_entropy_var, log)
        mon.check(close(got, var), 'the variance of position entropies is wrong', got=got, expected=var, names=names)
        got = mon.call(calculate_pos_entropy_std, log)
        mon.check(close(got, math.sqrt(var), 1e-7), 'the deviation of position entropies is wrong', got=got, expected=math.sqrt(var), names=names)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')

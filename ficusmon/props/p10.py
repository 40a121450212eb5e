"""P10: directly-follows entropies match their definition; ignoring = removing."""
from .. import gen, fx
from ..ref_entropy import dfg_entropies, close, drop
from python.ficus.legacy.analysis.event_log_analysis_entropy import (
    calculate_default_entropies, calculate_laplace_entropies, calculate_laplace_or_default_entropies,
    calculate_default_entropy_sum, calculate_default_entropy_average, create_entropies_df)

ID = 'P10'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random logs; every entropy variant compared with an independent implementation of the formula and with the same '
        'call on the log with the ignored events removed; non-trivial: two different event names')
ASSUMPTIONS = ['no event is called like the artificial start/end markers', 'tolerance 1e-9 on floating point results']
REQUIRED_EVENTS = ['same log edited in place', 'default', 'laplace', 'ignored equals removed', 'sum', 'average', 'average of nothing', 'table']


def same(mon, got, want, what, **w):
    mon.check(set(got) == set(want) and all(close(got[k], want[k]) for k in want), what, got=got, expected=want, **w)


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=8, max_len=12)
    log = fx.log_of_names(names)
    judge(rng, mon, names, log)
    if rng.random() < 0.3:
        mon.event('same log edited in place')
        fx.edit(rng, log)
        judge(rng, mon, fx.names(log), log)


def judge(rng, mon, names, log):
    snap = fx.snapshot(log)
    known = sorted({n for t in names for n in t})
    ign = set(rng.sample(known, rng.randint(0, len(known)))) if rng.random() < 0.9 else set(known)
    for laplace, fn in ((False, calculate_default_entropies), (True, calculate_laplace_entropies)):
        mon.event('laplace' if laplace else 'default')
        full = dfg_entropies(names, laplace)
        part = dfg_entropies(drop(names, ign), laplace)
        same(mon, mon.call(fn, log), full, f'{fn.__name__} differs from the definition', names=names)
        same(mon, mon.call(fn, log, ignored_events=ign), part, f'{fn.__name__} with ignored events differs', names=names, ignored=ign)
        mon.event('ignored equals removed')
        removed = fx.log_of_names(drop(names, ign))
        same(mon, mon.call(fn, log, ignored_events=ign), mon.call(fn, removed), 'ignoring events differs from removing them', names=names, ignored=ign)
        same(mon, mon.call(calculate_laplace_or_default_entropies, log, laplace, ign), part, 'selected entropy kind is wrong')
        for ig, ref in ((None, full), (ign, part)):
            s = sum(ref.values())
            mon.event('sum')
            got = mon.call(calculate_default_entropy_sum, log, laplace, ig)
            mon.check(close(got, s), 'the sum of entropies is wrong', got=got, expected=s, names=names)
            mon.event('average' if ref else 'average of nothing')
            a = s / len(ref) if ref else 0
            got = mon.call(calculate_default_entropy_average, log, laplace, ig)
            mon.check(close(got, a), 'the average of entropies is wrong', got=got, expected=a, names=names)
    s = sum(dfg_entropies(names, True).values())
    got = mon.call(calculate_default_entropy_sum, log), mon.call(calculate_default_entropy_average, log), mon.call(calculate_default_entropy_sum, log, ignored_events=ign)
    mon.check(close(got[0], s) and close(got[1], s / len(known) if known else 0) and close(got[2], sum(dfg_entropies(drop(names, ign), True).values())),
              'the sum or average with default settings is not that of the smoothed entropies', got=got, names=names)
    if known:
        df = mon.call(create_entropies_df, log)
        mon.event('table')
        ref = dfg_entropies(names, False)
        same(mon, dict(zip(df.index, df['Entropy'])), ref, 'the table of entropies is wrong', names=names)
        vals = list(df['Entropy'])
        mon.check(len(vals) == len(ref) and all(a >= b for a, b in zip(vals, vals[1:])), 'the table is not sorted by decreasing entropy', values=vals)
    mon.equal(fx.snapshot(log), snap, 'the log was changed')
    if len(known) > 1:
        mon.distinct(names, sorted(ign))
        mon.sample((names, ign))

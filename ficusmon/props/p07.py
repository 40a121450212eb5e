"""P07: variants: grouping is a partition by the exact sequence of names."""
from .. import gen, fx
from ..gen import NAME
from python.ficus.legacy.analysis.event_log_split import split_log_by_traces, merge_all_traces_in_one_log
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByVariants
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log

ID = 'P07'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random logs with many (near-)duplicate traces, equal lengths and names that collide under weak hashes; the groups '
        'are compared with grouping by the exact name tuple; non-trivial: at least one group with two traces and two groups')
ASSUMPTIONS = []
REQUIRED_EVENTS = ['split', 'filter by variants', 'several groups of one length', 'repeated variant', 'empty trace', 'merged',
                   'late difference']


def run_case(rng, index, mon):
    alpha = gen.alphabet(rng)
    names = gen.names_log(rng, max_traces=10, max_len=rng.choice([2, 4, 8]), alpha=alpha)
    if rng.random() < 0.5 and names:
        # fixed length family: permutations and late differences
        L = rng.choice([rng.randint(1, 6), rng.randint(1, 6), rng.randint(7, 40), rng.choice([70, 140, 300])])
        base = [rng.choice(alpha) for _ in range(L)]
        for _ in range(rng.randint(1, 8)):
            t = list(base)
            r = rng.random()
            if r < 0.4:
                t[-1] = rng.choice(alpha)
                mon.event('late difference')
            elif r < 0.6:
                rng.shuffle(t)
            elif r < 0.8:
                t[rng.randrange(L)] = rng.choice(alpha)
            names.insert(rng.randint(0, len(names)), t)
    log = fx.log_of_payloads(gen.payload_log(rng, names, rich=rng.random() < 0.5), uid=True)
    before, idents = fx.snapshot(log), fx.idents(log)
    groups = mon.call(split_log_by_traces, log)
    mon.event('split')
    uid = lambda t: tuple(id(e) for e in t)
    flat = [id(t) for g in groups for t in g]
    mon.check(sorted(flat) == sorted(id(t) for t in log), 'the groups are not a partition of the traces', names=names)
    ref = {}
    for t in log:
        ref.setdefault(tuple(e[NAME] for e in t), []).append(id(t))
    got = {}
    for g in groups:
        key = tuple(e[NAME] for e in g[0])
        mon.check(key not in got, 'one variant is split over several groups', variant=key, names=names)
        got[key] = [id(t) for t in g]
    mon.equal({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in ref.items()},
              'groups are not the sets of traces with the same names', names=names)
    lens = [len(k) for k in ref]
    if len(lens) != len(set(lens)):
        mon.event('several groups of one length')
    if any(len(v) > 1 for v in ref.values()):
        mon.event('repeated variant')
    if () in ref:
        mon.event('empty trace')
    res = mon.call(Pipeline(UseExistingLog(), FilterTracesByVariants()), log, what='FilterTracesByVariants')
    mon.event('filter by variants')
    out = get_log(res)
    mon.equal(sorted(tuple(e[NAME] for e in t) for t in out), sorted(ref), 'not exactly one trace per variant was kept', names=names)
    byuid = {tuple(e['uid'] for e in t): t for t in log if len(t)}
    firsts = {}
    for t in log:
        firsts.setdefault(tuple(e[NAME] for e in t), tuple(e['uid'] for e in t))
    for t in out:
        if len(t):
            mon.check(tuple(e['uid'] for e in t) in byuid, 'a kept trace is not a trace of the log')
    mon.equal(fx.snapshot(log), before, 'the log was changed')
    mon.equal(fx.idents(log), idents, 'events of the log were replaced')
    again = get_log(Pipeline(UseExistingLog(), FilterTracesByVariants())(out))
    mon.equal(sorted(fx.names(again)), sorted(fx.names(out)), 'filtering by variants twice changes the result')

    m = mon.call(merge_all_traces_in_one_log, log)
    mon.event('merged')
    mon.equal(len(m), 1, 'merging does not give a single trace')
    seq = [e[NAME] for e in m[0]]
    mon.equal(len(seq), sum(map(len, names)) + len(names), 'merged trace has a wrong length')
    pos, seps = 0, []
    for t in names:
        mon.equal(seq[pos:pos + len(t)], t, 'merged trace does not contain the traces in order', names=names)
        pos += len(t)
        seps.append(seq[pos])
        pos += 1
    known = {n for t in names for n in t}
    mon.check(len(set(seps)) == len(seps) and not set(seps) & known, 'separators of a merged log are not unique', seps=seps)
    for e in m[0]:
        e[NAME] = 'changed'
    mon.equal(fx.snapshot(log), before, 'changing the merged log changed the log')
    if len(ref) > 1 and len(ref) < len(names):
        mon.distinct(names)
        mon.sample(names)

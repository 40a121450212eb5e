"""P12: entropy filters remove greedily exactly as defined, respect their limits and stop."""
from .. import gen, fx
from ..ref_entropy import dfg_entropies, pos_entropies, drop
from python.ficus.legacy.filtering import event_log_filters as F
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.filtering.filter_parts import (PosEntropyDirectFilter, PosEntropyIndirectFilter,
                                                                  DfgEntropyDirectFilter, DfgEntropyIndirectFilter)
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log

ID = 'P12'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 30000}
RULE = ('random logs, thresholds (also taken from reached entropy values), limits and protected names; the result must be '
        'one of the logs the greedy definition can reach (all near-ties explored); till-end variants are checked step by step; '
        'loop steps are bounded; non-trivial: at least one and not every name removed')
ASSUMPTIONS = ['the limit on removed names is at least 1', 'once fewer than two non-empty traces are left position entropy '
               'is undefined and only the order independent guarantees are checked', 'tolerance 1e-9']
REQUIRED_EVENTS = ['pos direct', 'pos indirect', 'dfg direct', 'dfg indirect', 'till end direct', 'till end indirect',
                   'protected name kept', 'limit reached', 'threshold stop', 'everything removed', 'nothing removed', 'part',
                   'no candidate left', 'single step', 'many names']
EPS = 1e-9


def direct_step(names, metric, protected):
    """(set of acceptable picks, metric of the pick) or None when nothing may be removed; 'undef' when undefined."""
    m = metric(names)
    if m is None:
        return 'undef'
    m = {k: v for k, v in m.items() if k not in protected}
    if not m:
        return None
    top = max(m.values())
    return {k for k, v in m.items() if v >= top - EPS}, top


def avg(m):
    return sum(m.values()) / len(m) if m else 0


def indirect_pos_step(names, protected):
    cand = {}
    for n in sorted({x for t in names for x in t}):
        if n in protected:
            continue
        m = pos_entropies(drop(names, {n}))
        if m is None:
            continue
        cand[n] = sum(m.values())
    if not cand:
        return None
    low = min(cand.values())
    return {k for k, v in cand.items() if v <= low + EPS}, low


def indirect_dfg_step(names, protected, laplace, top_percent):
    ent = dfg_entropies(names, laplace)
    k = int(len(ent) * top_percent)
    order = sorted(ent, key=lambda x: -ent[x])
    if k == 0:
        return None, False
    cut = ent[order[k - 1]]
    certain = [x for x in order if ent[x] > cut + EPS]
    tied = [x for x in order if abs(ent[x] - cut) <= EPS]
    slots = k - len(certain)
    if slots == len(tied):
        certain, tied, slots = certain + tied, [], 0
    val = {x: avg(dfg_entropies(drop(names, {x}), laplace)) for x in certain + tied if x not in protected}
    sure = [val[x] for x in certain if x in val]
    bound = min(sure) if sure else float('inf')
    picks = {x for x, v in val.items() if v <= bound + EPS}
    may_stop = not sure and sum(1 for x in tied if x in protected) >= slots
    return (picks or None), may_stop


class Explorer:
    """All final sets of removed names the greedy definition allows."""

    def __init__(self, names, step, limit):
        self.finals, self.wild, self.names = set(), set(), names
        seen, todo = set(), [frozenset()]
        self.capped = False
        while todo:
            if len(seen) > 400:
                self.capped = True
                break
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            cur = drop(names, s) if s else names
            r = step(cur)            # (stop allowed, picks)
            if r == 'undef':
                self.wild.add(s)
                continue
            stop, picks = r
            if stop:
                self.finals.add(s)
            for p in picks:
                t = s | {p}
                if len(t) >= limit:
                    self.finals.add(t)
                else:
                    todo.append(t)

    def accepts(self, removed):
        return self.capped or removed in self.finals or any(w <= removed for w in self.wild)


def run_case(rng, index, mon):
    alpha = gen.alphabet(rng, k=rng.choice([2, 3, 4, 5, 6, 8]))
    many = rng.random() < 0.03
    if many:
        alpha = [f'n{i}' for i in range(rng.choice([14, 20, 36]))]
        names = [[rng.choice(alpha) for _ in range(rng.randint(5, 14))] for _ in range(rng.randint(3, 6))]
        mon.event('many names')
    else:
        names = gen.names_log(rng, max_traces=7, max_len=9, alpha=alpha, big=0.03, huge=0)
    log = fx.log_of_payloads(gen.payload_log(rng, names, rich=rng.random() < 0.3), uid=True)
    snap, idents = fx.snapshot(log), fx.idents(log)
    data = fx.payloads(log)
    known = sorted({n for t in names for n in t})
    protected = frozenset(rng.sample(known, rng.randint(0, len(known)))) if rng.random() < 0.5 else frozenset()
    unt = lambda n: n in protected
    limit = rng.choice([1, 1, 2, 3, 5, 10 ** 9, 10 ** 9, 10 ** 9] if not many else [8, 10, 16, 17, 32])
    kind = rng.choice(['pos direct', 'pos indirect', 'dfg direct', 'dfg indirect', 'till end direct', 'till end indirect'])
    laplace = rng.random() < 0.5
    mon.event(kind)
    if kind.startswith('till end'):
        return till_end(rng, mon, kind, names, log, protected, unt, snap)
    part = rng.random() < 0.35
    if part and kind.startswith('dfg'):
        protected, unt = frozenset(), (lambda n: False)
    metric = pos_entropies if kind.startswith('pos') else (lambda l: dfg_entropies(l, laplace))
    m0 = metric(names) or {}
    vals = sorted(m0.values()) or [0.0]
    thr = rng.choice([0, 0.0, rng.uniform(0, max(vals) * 1.1 + 0.1), rng.choice(vals), sum(vals) / len(vals),
                      sum(vals) * rng.random(), 1e9, -1.0])

    if kind.endswith(' direct'):
        def step(cur):
            if not cur:
                return True, ()
            r = direct_step(cur, metric, protected)
            if r is None:
                return True, ()
            if r == 'undef':
                return 'undef'
            picks, top = r
            return top <= thr + EPS, (picks if top > thr - EPS else ())
    elif kind == 'pos indirect':
        def step(cur):
            m = pos_entropies(cur)
            if m is None:
                return 'undef'
            s = sum(m.values())
            stop = s <= thr + EPS
            if s <= thr - EPS:
                return True, ()
            r = indirect_pos_step(cur, protected)
            return (True, ()) if r is None else (stop, r[0])
    else:
        tp = rng.choice([0.05, 0.25, 0.5, 0.75, 1.0, 1.0])

        def step(cur):
            if not cur:
                return True, ()
            a = avg(dfg_entropies(cur, laplace))
            if a <= thr - EPS:
                return True, ()
            picks, may = indirect_dfg_step(cur, protected, laplace, tp)
            if picks is None:
                return True, ()
            return a <= thr + EPS or may, picks
    ex = Explorer(names, step, limit)

    if part:
        mon.event('part')
        if kind == 'pos direct':
            p = PosEntropyDirectFilter(thr, limit, unt)
        elif kind == 'pos indirect':
            p = PosEntropyIndirectFilter(thr, limit, unt)
        elif kind == 'dfg direct':
            p = DfgEntropyDirectFilter(thr, laplace, limit)
        else:
            p = DfgEntropyIndirectFilter(thr, laplace, limit, tp)
        out = get_log(mon.call(Pipeline(UseExistingLog(), p), log, budget=3_000_000, what='part ' + kind))
    elif kind == 'pos direct':
        out = mon.call(F.filter_events_pos_entropy_direct, log, thr, unt, limit, budget=3_000_000)
    elif kind == 'pos indirect':
        out = mon.call(F.filter_events_pos_entropy_indirect, log, thr, limit, unt, budget=3_000_000)
    elif kind == 'dfg direct':
        out = mon.call(F.filter_events_default_entropy_direct, log, laplace, thr, limit, unt, budget=3_000_000)
    else:
        out = mon.call(F.filter_events_default_entropy_indirect, log, laplace, thr, tp, limit, unt, budget=3_000_000)

    left = {n for t in fx.names(out) for n in t}
    removed = frozenset(set(known) - left)
    w = dict(kind=kind, names=names, threshold=thr, limit=limit, protected=protected, laplace=laplace, result=fx.names(out))
    mon.check(not removed & protected, 'a protected event was removed', removed=removed, **w)
    mon.check(len(removed) <= limit, 'more names were removed than allowed', removed=removed, **w)
    want = [t for t in ([e for e in t if e['concept:name'] not in removed] for t in data) if t] if removed else \
        [t for t in data]
    got = fx.payloads(out)
    if not removed:
        mon.check(got == want or got == [t for t in want if t], 'the filter removed nothing but the log differs', **w)
    else:
        mon.equal(got, want, 'the result is not the log without the removed names', **w)
    mon.check(ex.accepts(removed), 'the removed names are not a greedy choice by the definition', removed=removed,
              allowed=ex.finals, undefined_from=ex.wild, **w)
    mon.equal(fx.snapshot(log), snap, 'the filter changed its input')
    mon.equal(fx.idents(log), idents, 'the filter replaced events of its input')
    if protected & left:
        mon.event('protected name kept')
    if len(removed) == limit:
        mon.event('limit reached')
    elif left and removed:
        mon.event('threshold stop')
    mon.event('everything removed' if not left else 'nothing removed' if not removed else 'partial')
    if left and left <= protected:
        mon.event('no candidate left')
    if removed and left:
        mon.distinct(kind, names, thr, limit, sorted(protected))
        mon.sample((kind, names, thr, limit, sorted(protected), sorted(removed)))

    # one step functions
    if rng.random() < 0.4 and names and any(names):
        mon.event('single step')
        r = direct_step(names, pos_entropies, ())
        if isinstance(r, tuple):
            n, v = mon.call(F.next_event_remove_pos_entropy_direct, log)
            mon.check(n in r[0] and abs(v - r[1]) <= EPS, 'the next event by position entropy is wrong', got=(n, v), expected=r, names=names)
        r = direct_step(names, lambda l: dfg_entropies(l, laplace), protected)
        n, v = mon.call(F.next_event_to_remove_default_entropy_direct, log, laplace, unt)
        if r is None:
            mon.check(n is None, 'a protected event is proposed', got=n)
        else:
            mon.check(n in r[0] and abs(v - r[1]) <= EPS, 'the next event by entropy is wrong', got=(n, v), expected=r, names=names)
        if len([t for t in names if t]) > 1:
            r = indirect_pos_step(names, protected)
            n, v = mon.call(F.next_event_remove_pos_entropy_indirect, log, untouchable_event_func=unt)
            if r is None:
                mon.check(n is None, 'an event is proposed although none may be removed', got=n, names=names)
            else:
                mon.check(n in r[0] and abs(v - r[1]) <= EPS, 'the next event by remaining position entropy is wrong', got=(n, v), expected=r, names=names)
        for tp in (0.5, 1.0):
            picks, may = indirect_dfg_step(names, protected, laplace, tp)
            n, v = mon.call(F.next_removal_default_entropy_indirect, log, laplace, tp, unt)
            if picks is None:
                mon.check(n is None, 'an event is proposed although none may be removed', got=n, names=names, top=tp)
            elif not (n is None and may):
                mon.check(n in picks, 'the next event by remaining entropy is wrong', got=n, expected=picks, names=names, top=tp, protected=protected)
                a = avg(dfg_entropies(drop(names, {n}), laplace))
                mon.check(abs(v - a) <= EPS, 'the remaining entropy is wrong', got=v, expected=a)


def till_end(rng, mon, kind, names, log, protected, unt, snap):
    mk = rng.choice(list(F.TillEndFilteringMetricKind))
    fn = F.filter_events_pos_entropy_direct_till_end if kind.endswith(' direct') else F.filter_events_pos_entropy_indirect_till_end
    res = mon.call(fn, log, mk, unt, budget=3_000_000)
    mon.equal(fx.snapshot(log), snap, 'the analysis changed its input')
    seq = [e for e, _ in res]
    w = dict(names=names, protected=protected, result=res, kind=mk)
    mon.check(len(seq) == len(set(seq)) and not set(seq) & protected and set(seq) <= {n for t in names for n in t},
              'the removal sequence has repeated, protected or unknown events', **w)
    cur = names
    direct = kind.endswith(' direct')
    for e, v in res:
        m = pos_entropies(cur)
        after = drop(cur, {e})
        if m is None:
            break
        tot = sum(x for k, x in m.items() if not (direct and k in protected))
        if direct:
            picks, _ = direct_step(cur, pos_entropies, protected)
        else:
            r = indirect_pos_step(cur, protected)
            mon.check(r is not None, 'an event was removed although none may be', **w)
            picks = r[0]
        mon.check(e in picks, f'{e!r} is not the greedy choice', allowed=picks, **w)
        if mk == F.TillEndFilteringMetricKind.BeforeOnly:
            mon.check(abs(v - tot) <= 1e-8, 'the recorded metric is wrong', got=v, expected=tot, **w)
        else:
            ma = pos_entropies(after)
            if ma is not None:
                d = tot - sum(x for k, x in ma.items() if not (direct and k in protected))
                mon.check(abs(v - d) <= 1e-8, 'the recorded change of the metric is wrong', got=v, expected=d, **w)
        cur = after
    else:
        rest = {n for t in cur for n in t} - protected
        if rest and pos_entropies(cur) is not None:
            if direct:
                mon.check(False, 'the analysis stopped although events may be removed', rest=rest, **w)
            else:
                mon.check(indirect_pos_step(cur, protected) is None, 'the analysis stopped although events may be removed', rest=rest, **w)
    if len(seq) > 1:
        mon.distinct(kind, names, sorted(protected), str(mk))

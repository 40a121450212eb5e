"""P26: colours: different things get different colours, the same thing keeps its colour."""
import contextlib
import random

from ..acts import *
from .. import draw
from .p19 import HIER
from .p25 import check_rows, cells, BLACK, UND
from python.ficus.legacy import util as U
from python.ficus.legacy.pipelines.analysis.analysis_parts import TracesDiversityDiagram, EventsPlacement, DrawPlacementOfEvents

ID = 'P26'
LEVEL = 'exploration'
CASES = {'quick': 800, 'thorough': 10000}
RULE = ('one pipeline draws several diagrams of one log while the random source is made hostile (a few values, repeats, streaks of black); '
        'all recorded figures together are checked: one colour per name across diagrams, no colour twice, never the colour of '
        'what is not highlighted; the colour source itself is exhausted over small spaces; non-trivial: a random collision was provoked')
ASSUMPTIONS = ['the diagrams belong to one pipeline run without nested pipelines', 'names of activities and events in one context do not clash']
REQUIRED_EVENTS = ['diagram', 'collision provoked', 'black provoked', 'several diagrams', 'provider', 'many colours', 'provider reset', 'single colour', 'hex', 'highlighted only']


class Hostile:
    """random.randint over few values, remembering the colours it led to"""

    def __init__(self, rng, values, zeros):
        self.rng, self.values, self.zeros, self.calls = rng, values, zeros, []

    def __call__(self, a, b):
        if (a, b) != (0, 255):      # not one component of a colour: leave it alone
            return self.real(a, b)
        if len(self.calls) % 3 == 0:
            self.black = self.rng.random() < self.zeros
        v = 0 if self.black else self.rng.choice(self.values)
        self.calls.append(v)
        return v

    def colors(self):
        c = self.calls
        return [tuple(c[i:i + 3]) for i in range(0, len(c) - 2, 3)]


@contextlib.contextmanager
def hostile(rng, values, zeros):
    h = Hostile(rng, values, zeros)
    old = h.real = random.randint
    random.randint = h
    try:
        yield h
    finally:
        random.randint = old


def note(mon, h):
    cs = h.colors()
    if len(cs) != len(set(cs)):
        mon.event('collision provoked')
    if (0, 0, 0) in cs:
        mon.event('black provoked')
    return len(cs) != len(set(cs))


def run_case(rng, index, mon):
    vals = rng.choice([[0, 1, 2], [1, 200], [0, 7, 128, 255], list(range(1, 9))])
    if index % 4 == 0:
        provider(rng, mon, vals)
        return
    room = len(vals) ** 3 - 2
    k = max(1, min(rng.choice([2, 3, 5, 8]), room // 3))
    alpha = [a + str(i) for i, a in enumerate(gen.alphabet(rng, pool='words', k=k)[:k])]
    names = gen.names_log(rng, max_traces=4, max_len=8, alpha=alpha, big=0, huge=0, min_traces=1)
    log = fx.log_of_names(names)
    actx = DiscoverActivitiesForSeveralLevels(HIER[:1], ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, adjusting_mode=AdjustingMode.FromAllLog)(
        PipelinePartResult().with_log(log))
    inst = A.traces_activities(actx)
    anames = {i.node.name for t in inst for i in t}
    if len(anames) + len(alpha) > room:
        return
    chosen = {n for n in alpha if rng.random() < 0.6}
    plan = rng.choice([['short'], ['full'], ['place'], ['pred'], ['diversity'], ['diversity', 'diversity'], ['place', 'short', 'full'],
                       ['short', 'full', 'place', 'pred'], ['place', 'place2'], ['full', 'pred'], ['place', 'diversity'], ['short', 'diversity', 'full']])
    zeros = 0.4 if 'diversity' not in plan else 0.0
    if 'diversity' in plan:
        vals = [v for v in vals if v] + [9]
        if len(alpha) + len(anames) > len(vals) ** 3 - 2:
            return
    parts = []
    kw = dict(plot_legend=rng.random() < 0.5)
    for p in plan:
        parts.append({'short': lambda: DrawShortActivitiesDiagram(**kw), 'full': lambda: DrawFullActivitiesDiagram(**kw),
                      'place': lambda: EventsPlacement(chosen, **kw), 'pred': lambda: DrawPlacementOfEvents(lambda n: n in chosen, **kw),
                      'place2': lambda: EventsPlacement(set(alpha), **kw), 'diversity': lambda: TracesDiversityDiagram(**kw)}[p]())
    ctx = PipelinePartResult().with_log(log).with_activities(A.activities(actx)).with_trace_activities(inst)
    with draw.recording() as rec, hostile(rng, vals, zeros) as h:
        mon.call(Pipeline(*parts), ctx, budget=2_000_000, what='diagrams')
    w = dict(names=names, plan=plan, chosen=chosen)
    if note(mon, h):
        mon.distinct(names, plan, sorted(chosen))
        mon.sample((names, plan, h.colors()))
    if len(plan) > 1:
        mon.event('several diagrams')
    mon.equal(len(rec.shots), len(plan), 'not every diagram was drawn once', **w)
    cached = A.cached_colors(ctx)
    pl = [[(i.start_pos, i.length, i.node.name) for i in t] for t in inst]
    overall = {}
    for p, s in zip(plan, rec.shots):
        mon.event('diagram')
        ax = s.fig.axes[0]
        if p in ('short', 'full'):
            seen = check_rows(mon, ax, [(1, cells(t, i, p == 'short', 1)) for t, i in zip(names, pl)], {UND: BLACK}, cached, p, **w)
            mon.check(all(c != BLACK for n, c in seen.items() if n != UND), f'{p}: an activity has the colour of undefined activities', colors=seen, **w)
            use = {n: c for n, c in seen.items() if n != UND}
        elif p == 'diversity':
            use = check_rows(mon, ax, [(1, [(1, n) for n in t]) for t in names], {}, cached, p, **w)
        else:
            hl = chosen if p != 'place2' else set(alpha)
            seen = check_rows(mon, ax, [(1, [(1, n) for n in t]) for t in names], {n: BLACK for n in alpha if n not in hl}, cached, p, **w)
            mon.event('highlighted only')
            mon.check(all(c != BLACK for n, c in seen.items() if n in hl), f'{p}: a highlighted event has the colour of the others', colors=seen, **w)
            use = {n: c for n, c in seen.items() if n in hl}
        for n, c in use.items():
            mon.check(overall.setdefault(n, c) == c, 'a name changes its colour from diagram to diagram', name=n, **w)
    mon.check(len(set(overall.values())) == len(overall), 'two names share a colour', colors=overall, **w)
    mon.equal({k: v.upper() for k, v in cached.items()}, overall, 'the remembered colours are not those drawn', **w)


def provider(rng, mon, vals):
    p = U.RandomUniqueColorsProvider()
    many = rng.random() < 0.05
    if many:
        vals = rng.sample(range(256), rng.randint(9, 13))
        mon.event('many colours')
    with hostile(rng, vals, 0.1) as h:
        for rnd in range(1 if many else 2):
            n = len(vals) ** 3 * 9 // 10 if many else rng.randint(1, max(1, len(vals) ** 3 - 2))
            got = [mon.call(p.next, budget=30_000_000) for _ in range(n)]
            mon.event('provider', n)
            mon.check(len(set(got)) == n, 'the source of unique colours gave a colour twice', colors=got)
            mon.check(all(len(c) == 7 and c[0] == '#' and c[1:] == c[1:].upper() and int(c[1:], 16) >= 0 for c in got), 'a colour is malformed', colors=got)
            p.reset()
            mon.event('provider reset')
        note(mon, h)
        mon.distinct(vals, n)
    U.random_unique_color_provider_instance.reset()
    with hostile(rng, vals, 0.1):
        s = U.SingleColorProvider()
        m = rng.randint(1, max(1, min(6, len(vals) ** 3 - 4)))
        prev = set()
        for _ in range(m):
            mon.event('single colour')
            c = {s.next() for _ in range(4)}
            mon.check(len(c) == 1, 'the single colour changes', colors=c)
            mon.check(not c & prev, 'a new single colour was used before', colors=c)
            prev |= c
            s.reset()
    U.random_unique_color_provider_instance.reset()
    for _ in range(30):
        t = tuple(rng.choice([0, 1, 9, 10, 15, 16, 255, rng.randrange(256)]) for _ in range(3))
        mon.event('hex')
        x = U.to_hex(t)
        mon.check(len(x) == 7 and tuple(int(x[i:i + 2], 16) for i in (1, 3, 5)) == t, 'a colour is not written as its components', color=t, text=x)

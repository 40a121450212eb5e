"""Shared helpers for the activity properties: real discovery runs + plain views of their results."""
from . import gen, fx
from .gen import NAME
from python.ficus.legacy.pipelines.pipelines import Pipeline, InternalPipelinePart
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind, AdjustingMode
from python.ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource, PipelinePartResult
from python.ficus.legacy.pipelines.contexts import accessors as A
from python.ficus.legacy.pipelines.analysis.high_level import *
from python.ficus.legacy.analysis.patterns import event_log_patterns as EP
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo, UndefinedActivityHandlingStrategy


def by_name(e):
    return e[NAME]


EXTRACTORS = [None, by_name, lambda e: e[NAME][:1], lambda e: e[NAME].split('.')[0], lambda e: e[NAME].rsplit('.', 1)[0],
              lambda e: str(len(e[NAME]))]


def classes(log, ext):
    return [[(ext or by_name)(e) for e in t] for t in log]


def pattern_source(rng, ext):
    k = rng.randrange(5)
    if k == 0:
        return DiscoverTandemArrays(TandemArrayKind.MaximalArray, rng.choice([3, 5, 20]), ext)
    if k == 1:
        return DiscoverTandemArrays(TandemArrayKind.PrimitiveArray, rng.choice([3, 5, 20]), ext)
    return DiscoverRepeats(list(RepeatActivitiesSource)[k - 2], ext)


class Forest:
    """Plain view of activity nodes: class sets are read from the log the node's pattern was taken from."""

    def __init__(self):
        self.sets = {}
        self.keep = []

    def add(self, roots, cls):
        for n in walk(roots):
            r = n.repeat_set
            self.sets[id(n)] = frozenset(cls[r.trace_index][r.first_pos:r.first_pos + r.length])
            self.keep.append(n)

    def of(self, node):
        return self.sets[id(node)]

    def children(self, node):
        return list(node.child_nodes)


def walk(roots):
    out, q = [], list(roots)
    while q:
        n = q.pop(0)
        out.append(n)
        q.extend(n.child_nodes)
        if len(out) > 100000:
            raise AssertionError('activity forest has a cycle')
    return out


def plain(instances):
    return [[(id(i.node), i.start_pos, i.length) for i in t] for t in instances]


def rep_log(rng, **k):
    if rng.random() < 0.01:
        # more equally large activities than anyone would look at by hand, each with smaller ones inside
        pool, k = rng.choice(['a', 'x.a.', 'step ']), rng.choice([2, 3, 3, 4])
        rows = []
        for i in range(rng.choice([40, 70, 90])):
            m = [f'{pool}{i}-{j}' for j in range(k)]
            part = m[:rng.randint(1, k - 1)] if rng.random() < 0.5 else m[-rng.randint(1, k - 1):]
            rows.append(rng.choice([m + ['y'] + part + ['x'] + m, m * 2, m * 2 + ['z'] + part * 2 + ['q'], part + ['u'] + m + ['v'] + m]))
        rng.shuffle(rows)
        return rows
    k.setdefault('max_traces', 4)
    k.setdefault('max_len', rng.choice([5, 10, 18]))
    return gen.names_log(rng, alpha=gen.alphabet(rng, k=rng.choice([1, 2, 3, 3, 4, 5, 6, 8])), big=0.03, **k)


def check_instances(mon, expected, got, forest, what, /, **w):
    """expected: list of (set of acceptable nodes, start, length)."""
    g = [(i.start_pos, i.length) for i in got]
    e = [(s, l) for _, s, l in expected]
    mon.check(g == e, f'{what}: the activity instances are at the wrong places', got=[(forest.sets.get(id(i.node)), i.start_pos, i.length) for i in got],
              expected=[([sorted(forest.of(n)) for n in ok], s, l) for ok, s, l in expected], **w)
    for i, (ok, s, l) in zip(got, expected):
        mon.check(any(i.node is n for n in ok), f'{what}: an instance belongs to the wrong activity', at=(s, l), got=i.node.name,
                  expected=[n.name for n in ok], **w)


def disjoint(mon, trace_len, instances, what, /, **w):
    end = 0
    for i in instances:
        mon.check(i.length > 0 and i.start_pos >= end and i.start_pos + i.length <= trace_len,
                  f'{what}: instances overlap, are out of order or out of range', instances=[(i.start_pos, i.length) for i in instances], **w)
        end = i.start_pos + i.length

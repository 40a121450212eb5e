"""P24: analyses, reports and drawings never change what they look at, and do not influence each other."""
import os

from ..acts import *
from .. import draw
from ..draw import plt
from .p19 import HIER
from python.ficus.legacy.pipelines.analysis.analysis_parts import *
from python.ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import (BuildActivityGraph, BuildEventClassGraph, BuildEventClassTree,
                                                                                  SerializeGraph)
from python.ficus.legacy.pipelines.filtering.filter_parts import *
from python.ficus.legacy.pipelines.mutations.mutations_parts import RemoveEventFromLogByName, RemoveEventsFromLogByNames, RemoveEventsFromLogPredicate
from python.ficus.legacy.pipelines.discovery.discovery_parts import DiscoverPetriNetInductive, DiscoverPetriNetAlpha
from python.ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
import copy
from python.ficus.legacy.analysis import event_log_info as I, event_log_analysis_entropy as E, event_log_split as S
from python.ficus.legacy.log import functions as F, pm4py_converters as PC

ID = 'P24'
LEVEL = 'exploration'
CASES = {'quick': 400, 'thorough': 6000}
RULE = ('one context with a rich log, a real activity discovery, patterns, trees and graphs is run through random sequences of analysis, report, '
        'drawing, discovery and filter parts; a deep picture of every object of the context is compared after each part, and each '
        'analysis function is repeated after the others and must give the same answer; non-trivial: at least one activity instance')
ASSUMPTIONS = ['class extractors and predicates given by the user are pure', 'at least two traces, none empty (position entropies)']
REQUIRED_EVENTS = ['context compared', 'repeated analysis', 'filter', 'drawing', 'discovery', 'report', 'graph', 'pm4py', 'with instances',
                   'unchanged context', 'log replaced', 'patterns of another log']


class K:
    log_key, activities_key, event_class_tree_key, traces_activities_key = 'log', 'activities', 'event_class_tree', 'traces_activities'
    patterns_key, repeat_sets_key, activities_to_logs_key, graph_key = 'patterns', 'repeat_sets', 'activities_to_logs', 'graph'
    petri_net_key, serialized_graph_key, cached_colors_key = 'petri_net', 'serialized_graph', 'cached_colors'


ALL = [k for n, k in vars(K).items() if n.endswith('_key')]
NONE = object()


def value(ctx, k):
    try:
        return getattr(A, k)(ctx)
    except ValueError:
        return NONE


def content(ctx):
    return {k: v for k in ALL if k != K.cached_colors_key and (v := value(ctx, k)) is not NONE}


def picture(ctx):
    """Deep picture of everything in a context, by key."""
    def nodes(roots):
        return tuple((id(n), n.name, getattr(n, 'activity_level', None), tuple(sorted(getattr(n, 'set_of_events', ()) or ())),
                      repr(getattr(n, 'repeat_set', None)), getattr(n, 'unique_name', lambda: None)(), tuple(id(c) for c in n.child_nodes)) for n in walk(roots))
    out = {}
    for k, v in content(ctx).items():
        if k == K.log_key:
            p = (fx.snapshot(v), fx.idents(v), [id(t) for t in v])
        elif k in (K.activities_key, K.event_class_tree_key):
            p = ([id(x) for x in v], nodes(v))
        elif k == K.traces_activities_key:
            p = [[(id(i), id(i.node), i.start_pos, i.length) for i in t] for t in v]
        elif k in (K.patterns_key, K.repeat_sets_key):
            p = repr(v)
        elif k == K.activities_to_logs_key:
            p = [(n, fx.snapshot(l), fx.idents(l)) for n, l in v.items()]
        elif k == K.graph_key:
            p = str(v)
        elif k == K.petri_net_key:
            p = (repr(v.petri_net), repr(v.start_marking), repr(v.end_marking))
        else:
            p = repr(v)
        out[k] = (id(v), p)
    return out


def functions(log, names, rng):
    ign = set(rng.sample(sorted({n for t in names for n in t}), 1))
    tc = I.calculate_events_in_each_trace(log)
    plainp = lambda ps: [[(x.first_pos, x.length) for x in t] for t in ps]
    return {
        'info': lambda: (lambda i: (sorted(i.dfg.pairs.items()), sorted(i.events_count.items())))(I.create_log_information(log, ign)),
        'dfg': lambda: sorted(I.create_dfg(log).pairs.items()),
        'counts': lambda: [(sorted(c.counts.items()), c.overall_count) for c in I.calculate_events_in_each_trace(log)],
        'names': lambda: sorted(I.find_all_events_names(log, lambda e: len(e[NAME]) > 1)),
        'dfg entropy': lambda: E.calculate_default_entropies(log, ign),
        'laplace entropy': lambda: E.calculate_laplace_entropies(log),
        'pos entropy': lambda: repr(sorted(E.calculate_position_entropies(log).items())),
        'pos entropy fast': lambda: repr(sorted(E.calculate_position_entropies_fast(log, E.PositionEntropyIgnoredEvents(ign, tc)).items())),
        'split': lambda: sorted([id(t) for t in g] for g in S.split_log_by_traces(log)),
        'merge': lambda: [[p for p in t if 'q' not in p] and len(t) for t in fx.payloads(S.merge_all_traces_in_one_log(log))],
        'text': lambda: F.serialize_log(log),
        'xes': lambda: F.serialize_log_to_xes(log),
        'pm4py': lambda: [[dict(e) for e in t] for t in PC.to_pm4py_log(log)],
        'tandem': lambda: plainp(EP.find_maximal_tandem_arrays(log, 8)),
        'primitive': lambda: plainp(EP.find_primitive_tandem_arrays(log, 8)),
        'repeats': lambda: [sorted(t) for t in plainp(EP.find_maximal_repeats(log))],
        'super': lambda: [sorted(t) for t in plainp(EP.find_super_maximal_repeats(log))],
        'near': lambda: [sorted(t) for t in plainp(EP.find_near_super_maximal_repeats(log))],
        'hash': lambda: (hash(log), [hash(t) for t in log]),
    }


def run_case(rng, index, mon):
    tempdir = os.path.join(mon.scratch, f'c{index}')
    os.makedirs(tempdir)
    os.chdir(tempdir)
    names = gen.names_log(rng, max_traces=4, max_len=rng.choice([4, 7, 10]), alpha=gen.alphabet(rng, pool=rng.choice(['letters', 'dotted', 'words']), k=rng.choice([2, 3, 4])),
                          allow_empty_traces=False, allow_empty_log=False, min_traces=2, min_len=1, big=0, huge=0)
    log = fx.log_of_payloads(gen.payload_log(rng, names))
    log.attributes['a'] = 'b'
    log.global_values['event'] = {'x': [1]} if rng.random() < 0 else {'x': 1}
    for t in log:
        t.attributes['t'] = 'v'
    ctx = mon.call(Pipeline(UseExistingLog(), DiscoverActivitiesForSeveralLevels(HIER[:rng.choice([1, 2])], adjusting_mode=AdjustingMode.FromAllLog),
                            pattern_source(rng, None), DiscoverRepeatsSets(), CreateLogsForActivities(0, by_name), BuildEventClassTree([lambda n: n[:1]]),
                            BuildEventClassGraph('G'), SerializeGraph()), log, what='preparation')
    A.cached_colors(ctx)
    if any(A.traces_activities(ctx)):
        mon.event('with instances')
        mon.distinct(names)
        mon.sample(names)
    acts = A.activities(ctx)
    uniq = sorted({n for t in names for n in t})
    some = rng.choice(uniq)
    p = lambda n: os.path.join(tempdir, n)
    C = K.cached_colors_key
    ro = ('report', set())
    dr = ('drawing', {C})
    parts = [
        (SaveAllEventNames(p('a')), *ro), (PrintEventLogInfo(), *ro), (PrintDFG(lambda n: True), *ro), (PrintActivities(), *ro),
        (PrintUnattachedEvents(), *ro), (CalculatePercentageOfUnattachedEvents(), *ro), (PrintFoundActivitiesCount(), *ro),
        (PrintNumberOfUnderlyingEvents(), *ro), (PrintActivitiesNamesToHashes(), *ro), (SaveAllActivitiesNames(p('b')), *ro),
        (SaveAllActivitiesInstancesNames(p('c')), *ro), (WriteActivitiesInstancesIndices(p('d')), *ro),
        (SaveEventLogToXes(lambda c: p('e.xes')), *ro),
        (TracesDiversityDiagram(True, save_path=p('f.png')), *dr), (TracesHistogram(), *dr), (EventsPlacement({some}, True), *dr),
        (DrawDefaultEntropyHistogram(save_path=p('g.png')), *dr), (DrawPosEntropyHistogram(), *dr), (DrawPlacementOfEvents(lambda n: n == some), *dr),
        (DrawShortActivitiesDiagram(plot_legend=True), *dr), (DrawFullActivitiesDiagram(save_path=p('h.png')), *dr),
        (DrawPosEntropyDirectTillEndFilteringDiagram(rng.choice(list(TillEndFilteringMetricKind))), *dr),
        (DrawPosEntropyIndirectTillEndFilteringDiagram(rng.choice(list(TillEndFilteringMetricKind))), *dr),
        (DrawPatterns(rng.random() < 0.5), *dr),
        (pattern_source(rng, rng.choice(EXTRACTORS)), 'discovery', {K.patterns_key}),
        (DiscoverRepeatsSets(), 'discovery', {K.repeat_sets_key}),
        (DiscoverActivities(7), 'discovery', {K.activities_key}),
        (DiscoverActivitiesInTraces(), 'discovery', {K.traces_activities_key}),
        (DiscoverActivitiesFromPatterns(pattern_source(rng, by_name)), 'discovery', {K.activities_key, K.patterns_key}),
        (DiscoverActivitiesInUnattachedSubTraces(by_name), 'discovery', {K.traces_activities_key}),
        (DiscoverActivitiesInstancesFromRepeats(RepeatActivitiesSource.MaximalRepeats), 'discovery', {K.activities_key, K.patterns_key, K.traces_activities_key}),
        (DiscoverActivitiesFromTandemArrays(TandemArrayKind.MaximalArray), 'discovery', {K.activities_key, K.patterns_key, K.traces_activities_key}),
        (AdjustWithActivitiesFromUnattachedEvents(HIER[0], 4), 'discovery', {K.activities_key, K.traces_activities_key}),
        (CreateLogsForActivities(0, by_name), 'discovery', {K.activities_to_logs_key}),
        (CreateLogFromActivities(rng.choice(list(UndefinedActivityHandlingStrategy))), 'log replaced', {K.log_key}),
        (DiscoverPetriNetInductive(), 'pm4py', {K.petri_net_key}), (DiscoverPetriNetAlpha(), 'pm4py', {K.petri_net_key}),
        (BuildEventClassTree([lambda n: n[:2], lambda n: n[:1]]), 'graph', {K.event_class_tree_key}), (BuildEventClassGraph('X', False), 'graph', {K.graph_key}),
        (SerializeGraph(), 'graph', {K.serialized_graph_key}),
        (PosEntropyDirectFilter(0.3), 'filter', None), (PosEntropyIndirectFilter(0.3), 'filter', None), (DfgEntropyDirectFilter(1, True), 'filter', None),
        (DfgEntropyIndirectFilter(1, False, top_percent=1), 'filter', None),
        (FilterTracesByCount(2), 'filter', None), (FilterTracesByVariants(), 'filter', None),
        (RemoveEventFromLogByName(some), 'filter', None), (RemoveEventsFromLogByNames(set(uniq[:2])), 'filter', None),
        (RemoveEventsFromLogPredicate(lambda e: e[NAME] == some), 'filter', None),
    ]
    if acts:
        parts.append((DrawSingleActivityPlacement(lambda a: a[0], use_different_colors=rng.random() < 0.5), *dr))
        parts.append((BuildActivityGraph(acts[0].activity_level, 'A'), 'graph', {K.graph_key}))
    # patterns, instances and activities of another log than the one at hand
    foreign = [[EP.SubArrayInEventLog(rng.randint(0, len(t)), rng.randint(1, len(t) + 3)) for _ in range(rng.randint(0, 3))] for t in log]
    shown = repr(foreign)
    c = PipelinePartResult().with_log(log).with_patterns(foreign)
    r = mon.call(DiscoverRepeatsSets(), c, what='DiscoverRepeatsSets')
    mon.event('patterns of another log')
    mon.check(A.patterns(r) is foreign and repr(foreign) == shown, 'DiscoverRepeatsSets changed the patterns it was given', before=shown, after=repr(foreign))
    sets = A.repeat_sets(r)
    shown = repr(sets)
    r = mon.call(DiscoverActivities(0), r, what='DiscoverActivities')
    mon.check(A.repeat_sets(r) is sets and repr(sets) == shown, 'DiscoverActivities changed the repeat sets it was given', before=shown, after=repr(sets))
    fs = functions(log, names, rng)
    first = {k: mon.call(f, what=k, budget=3_000_000) for k, f in fs.items()}
    before = picture(ctx)
    rng.shuffle(parts)
    with draw.recording():
        for part, kind, sets in parts[:rng.choice([12, 25, len(parts)])]:
            what = type(part).__name__
            mon.event(kind)
            c = copy.copy(ctx)
            r = mon.call(part, c, what=what, budget=3_000_000)
            mon.event('context compared')
            after = picture(ctx)
            for k in before:
                if k == C:
                    continue
                mon.equal(after[k], before[k], f'{what} changed the {k} it was given', names=names)
            if sets is None:
                continue
            if not sets or sets == {C}:
                mon.event('unchanged context')
                mon.check(r is c, f'{what} did not hand on its context')
            for k, v in content(ctx).items():
                if k not in sets:
                    mon.check(value(r, k) is v, f'{what} replaced or dropped the {k} of the context', names=names)
            extra = set(content(r)) - set(content(ctx)) - sets - {C}
            mon.check(not extra, f'{what} added values to the context', added=sorted(map(str, extra)))
            plt.close('all')
    for k, f in fs.items():
        mon.event('repeated analysis')
        again = mon.call(f, what=k, budget=3_000_000)
        mon.check(again == first[k] or repr(again) == repr(first[k]), f'{k}: the same analysis of the same log gave another result later', first=first[k], later=again, names=names)
    mon.equal(picture(ctx)[K.log_key], before[K.log_key], 'an analysis changed the log', names=names)

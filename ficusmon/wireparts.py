"""The contract between the client parts and the backend: for every part its wire name, configuration and requested values.

The names, keys, enum types and value types are those the backend looks up (parts_names.rs, context_keys_init.rs, context_keys.rs, converters.rs)."""
from . import gen
from .wire import f32
from python.ficus.grpc_pipelines.grpc_pipelines import *
from python.ficus.grpc_pipelines.grpc_pipelines import PipelinePart2, PipelinePart2WithCallback, Pipeline2, PrintEventLogInfo2
from python.ficus.grpc_pipelines import (activities_parts as AP, discovery_parts as DP, drawing_parts as WP, filtering_parts as FP, mutation_parts as MP,
                                         patterns_parts as PP, util_parts as UP, xes_parts as XP, data_models as DM)
from python.ficus.legacy.analysis.event_log_analysis import NComponents, DatasetVisualizationMethod
from python.ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy as UND
from python.ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode

REQ = object()
ENUMS = {  # python enum -> name of the type at the backend
    DM.PatternsDiscoveryStrategy: ('PatternsDiscoveryStrategy', ['FromAllTraces', 'FromSingleMergedTrace']),
    DM.PatternsKind: ('PatternsKindDto', ['PrimitiveTandemArrays', 'MaximalTandemArrays', 'MaximalRepeats', 'SuperMaximalRepeats', 'NearSuperMaximalRepeats']),
    AdjustingMode: ('AdjustingMode', ['FromAllLog', 'FromUnattachedSubTraces']),
    UND: ('UndefActivityHandlingStrategyDto', ['DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents']),
    DM.NarrowActivityKind: ('ActivityNarrowingKind', ['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']),
    DM.ActivityFilterKind: ('ActivityInTraceFilterKind', ['NoFilter', 'DefaultFilter']),
    DM.ActivitiesLogsSource: ('ActivitiesLogsSourceDto', ['Log', 'TracesActivities']),
    DM.ActivitiesRepresentationSource: ('ActivityRepresentationSource', ['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents']),
    DM.Distance: ('FicusDistance', ['Cosine', 'L1', 'L2', 'Levenshtein']),
    DM.TracesRepresentationSource: ('TracesRepresentationSource', ['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents']),
}
# parameter: (name, kind, default as (wire) python value or REQ, key on the wire or None)
U, F, B, S, OS, SS, PIPE, OPIPE, X = 'uint32', 'float', 'bool', 'string', 'optional string', 'strings', 'pipeline', 'optional pipeline', 'local'
STRAT, KIND, ADJ, NARROW, FILT, SRC, REPR, DIST, TREPR = (DM.PatternsDiscoveryStrategy, DM.PatternsKind, AdjustingMode, DM.NarrowActivityKind, DM.ActivityFilterKind,
                                                        DM.ActivitiesLogsSource, DM.ActivitiesRepresentationSource, DM.Distance, DM.TracesRepresentationSource)
level = ('activity_level', U, 0, 'activity_level')
narrow = ('narrow_activities', NARROW, 'NarrowDown', 'narrow_activities')
filt = ('activity_filter_kind', FILT, 'DefaultFilter', 'activity_in_trace_filter_kind')
strat = ('strategy', STRAT, 'FromAllTraces', 'patterns_discovery_strategy')
maxlen = ('max_array_length', U, 20, 'tandem_array_length')
adj = ('adjusting_mode', ADJ, 'FromAllLog', 'adjusting_mode')
minun = ('min_events_in_unattached_subtrace_count', U, 0, 'events_count')
minact = ('min_events_in_activity_count', U, 0, 'min_activity_length')
tol = ('tolerance', F, 1e-5, 'tolerance')
cls_ex = ('class_extractor', OS, None, 'event_class_regex')
rep = ('activities_repr_source', REPR, 'EventClasses', 'activities_repr_source')
dist = ('distance', DIST, 'Cosine', 'distance')
show = ('show_visualization', X, True, None)
size, view, font = ('fig_size', X, (7, 9), None), ('view_params', X, (-140, 60), None), ('font_size', X, 14, None)
save, ncomp = ('save_path', X, None, None), ('n_components', X, NComponents.Three, None)
meth, lcols = ('visualization_method', X, DatasetVisualizationMethod.Pca, None), ('legend_cols', X, 2, None)
title, legend = ('title', X, None, None), ('plot_legend', X, True, None)
nolegend = ('plot_legend', X, False, None)
hs, ws = ('height_scale', X, 1, None), ('width_scale', X, 1, None)
gname, bg, eng, exp, rank = ('name', X, 'petri_net', None), ('background_color', X, 'white', None), ('engine', X, 'dot', None), ('export_path', X, None, None), ('rankdir', X, 'LR', None)
dname = ('name', X, 'dfg_graph', None)
places = ('show_places_names', X, False, None)
term = ('terminate_on_unreplayable_trace', B, False, 'terminate_on_unreplayable_traces')


def d(cls, name, *params):
    return cls, ('default', name, None), params


def c(cls, name, keys, *params):
    return cls, ('complex', name, keys), params


def s(cls, key, *params):
    return cls, ('simple', None, key), params


ths = lambda *n: [(a, F, dflt, k) for a, k, dflt in n]
TABLE = [
    d(XP.ReadLogFromXes2, 'ReadLogFromXes'), d(XP.WriteLogToXes2, 'WriteLogToXes', ('save_path', S, REQ, 'path')),
    d(XP.ReadLogFromBxes2, 'ReadLogFromBxes'), d(XP.WriteLogToBxes2, 'WriteLogToBxes', ('save_path', S, REQ, 'path')),
    d(UP.UseNamesEventLog2, 'UseNamesEventLog'), c(UP.PrintEventLog2, 'GetNamesEventLog', ['names_event_log']),
    c(PrintEventLogInfo2, 'GetEventLogInfo', ['event_log_info']),
    d(FP.FilterTracesByEventsCount2, 'FilterTracesByEventsCount', ('min_events_in_trace', U, REQ, 'events_count')),
    d(FP.FilterEventsByName2, 'FilterEventsByName', ('event_name', S, REQ, 'event_name')),
    d(FP.FilterEventsByRegex2, 'FilterEventsByRegex', ('regex', S, REQ, 'regex')), d(FP.FilterLogByVariants2, 'FilterLogByVariants'),
    d(MP.AddStartEndArtificialEvents2, 'AddArtificialStartEndEvents'), d(MP.AddStartArtificialEvents2, 'AddArtificialStartEvents'),
    d(MP.AddEndArtificialEvents2, 'AddArtificialEndEvents'),
    d(PP.FindPrimitiveTandemArrays2, 'FindPrimitiveTandemArrays', ('max_array_length', U, REQ, 'tandem_array_length'), cls_ex),
    d(PP.FindMaximalTandemArrays2, 'FindMaximalTandemArrays', ('max_array_length', U, REQ, 'tandem_array_length'), cls_ex),
    d(PP.FindMaximalRepeats2, 'FindMaximalRepeats', ('strategy', STRAT, REQ, 'patterns_discovery_strategy'), cls_ex),
    d(PP.FindSuperMaximalRepeats2, 'FindSuperMaximalRepeats', ('strategy', STRAT, REQ, 'patterns_discovery_strategy'), cls_ex),
    d(PP.FindNearSuperMaximalRepeats2, 'FindNearSuperMaximalRepeats', ('strategy', STRAT, REQ, 'patterns_discovery_strategy'), cls_ex),
    d(AP.DiscoverActivities2, 'DiscoverActivities', ('activity_level', U, REQ, 'activity_level')),
    d(AP.DiscoverActivitiesInstances2, 'DiscoverActivitiesInstances', narrow, ('min_events_in_activity', U, 0, 'min_activity_length'), filt),
    d(AP.CreateLogFromActivitiesInstances2, 'CreateLogFromActivities', ('strategy', UND, 'DontInsert', 'undef_activity_handling_strategy')),
    d(AP.DiscoverActivitiesForSeveralLevels2, 'DiscoverActivitiesForSeveralLevels', ('event_classes', SS, REQ, 'event_classes_regexes'),
      ('patterns_kind', KIND, REQ, 'patterns_kind'), narrow, level, strat, maxlen, adj, minun, minact, filt),
    d(AP.DiscoverActivitiesUntilNoMore2, 'DiscoverActivitiesUntilNoMore', ('event_class', OS, None, 'event_class_regex'),
      ('patterns_kind', KIND, 'MaximalRepeats', 'patterns_kind'), narrow, level, strat, ('undef_strategy', UND, 'DontInsert', 'undef_activity_handling_strategy'),
      maxlen, adj, minun, minact, filt, ('after_activities_extraction_pipeline', OPIPE, None, 'pipeline'),
      ('execute_only_on_last_extraction', B, False, 'execute_only_on_last_extraction')),
    d(AP.ExecuteWithEachActivityLog2, 'ExecuteWithEachActivityLog', ('activities_logs_source', SRC, REQ, 'activities_logs_source'),
      ('activity_level', U, REQ, 'activity_level'), ('activity_log_pipeline', PIPE, REQ, 'pipeline')),
    d(AP.SubstituteUnderlyingEvents2, 'SubstituteUnderlyingEvents'), d(AP.ClearActivitiesRelatedStuff2, 'ClearActivities'),
    c(AP.PrintNumberOfUnderlyingEvents2, 'GetUnderlyingEventsCount', ['underlying_events_count']),
    d(AP.ApplyClassExtractor2, 'ApplyClassExtractor', ('class_extractor_regex', S, REQ, 'event_class_regex'), ('filter_regex', S, '.*', 'regex')),
    c(AP.ClusterizeActivitiesFromTracesKMeans, 'ClusterizeActivitiesFromTracesKMeans', ['labeled_traces_activities_dataset'], level,
      ('clusters_count', U, 10, 'clusters_count'), ('learning_iterations_count', U, 200, 'learning_iterations_count'), tol, cls_ex, show, size, view, font, save,
      rep, dist, ncomp, meth, lcols),
    c(AP.ClusterizeActivitiesFromTracesKMeansGridSearch, 'ClusterizeActivitiesFromTracesKMeansGridSearch', ['labeled_traces_activities_dataset'], level,
      ('learning_iterations_count', U, 200, 'learning_iterations_count'), tol, cls_ex, show, size, view, font, rep, save, dist, ncomp, meth, lcols),
    c(AP.ClusterizeActivitiesFromTracesDbscan, 'ClusterizeActivitiesFromTracesDbscan', ['labeled_traces_activities_dataset'], level,
      ('min_events_count_in_cluster', U, 1, 'min_events_in_cluster_count'), tol, cls_ex, show, size, view, font, rep, save, dist, ncomp, meth, lcols),
    c(AP.VisualizeTracesActivities2, 'CreateTracesActivitiesDataset', ['traces_activities_dataset'], level, cls_ex, size, view, font, save, rep, ncomp, meth, lcols),
    c(AP.ClusterizeLogTracesDbscan, 'ClusterizeLogTraces', ['labeled_log_traces_dataset'], ('after_clusterization_pipeline', PIPE, REQ, 'pipeline'),
      ('min_events_count_in_cluster', U, 1, 'min_events_in_cluster_count'), tol, show, size, view, font, save, dist, ncomp, meth, lcols,
      ('traces_repr_source', TREPR, 'Events', 'traces_repr_source'), cls_ex),
    d(DP.DiscoverPetriNetAlpha2, 'DiscoverPetriNetAlpha'), d(DP.DiscoverPetriNetAlphaPlus2, 'DiscoverPetriNetAlphaPlus'),
    d(DP.DiscoverPetriNetAlphaPlusPlus2, 'DiscoverPetriNetAlphaPlusPlus'), d(DP.DiscoverPetriNetAlphaPlusPlusNfc2, 'DiscoverPetriNetAlphaPlusPlusNfc'),
    d(DP.DiscoverPetriNetHeuristic2, 'DiscoverPetriNetHeuristic', ('dependency_threshold', F, 0.5, 'dependency_threshold'),
      ('positive_observations_threshold', U, 1, 'positive_observations_threshold'), ('relative_to_best_threshold', F, 1.0, 'relative_to_best_threshold'),
      ('and_threshold', F, 0.1, 'and_threshold'), ('loop_length_two_threshold', F, 0.5, 'loop_length_two_threshold')),
    d(DP.DiscoverFuzzyGraph, 'DiscoverFuzzyGraph', ('unary_frequency_threshold', F, 0.0, 'unary_frequency_threshold'),
      ('binary_significance_threshold', F, 0.0, 'binary_frequency_significance_threshold'), ('preserve_threshold', F, 0.0, 'preserve_threshold'),
      ('ratio_threshold', F, 0.0, 'ratio_threshold'), ('utility_rate', F, 0.0, 'utility_rate'), ('edge_cutoff_threshold', F, 0.0, 'edge_cutoff_threshold'),
      ('node_cutoff_threshold', F, 0.0, 'node_cutoff_threshold')),
    d(DP.SerializePetriNetToPNML2, 'SerializePetriNet', ('save_path', S, REQ, 'path'), ('use_names_as_ids', B, False, 'pnml_use_names_as_ids')),
    s(DP.ViewPetriNet2, 'petri_net', places, gname, bg, eng, exp, rank, ('annotation', X, None, None)),
    c(DP.ViewDirectlyFollowsGraph2, 'DiscoverDirectlyFollowsGraph', ['graph'], dname, bg, eng, exp, rank),
    s(DP.ViewGraph2, 'graph', dname, bg, eng, exp, rank),
    c(DP.AnnotatePetriNetWithCount2, 'AnnotatePetriNetWithCount', ['petri_net', 'petri_net_count_annotation'], term, places, gname, bg, eng, exp, rank),
    c(DP.AnnotatePetriNetWithFrequency2, 'AnnotatePetriNetWithFrequency', ['petri_net', 'petri_net_frequency_annotation'], term, places, gname, bg, eng, exp, rank),
    c(DP.AnnotatePetriNetWithTraceFrequency2, 'AnnotatePetriNetWithTraceFrequency', ['petri_net', 'petri_net_trace_frequency_annotation'], term, places, gname, bg, eng, exp, rank),
    d(DP.EnsureInitialMarking, 'EnsureInitialMarking'),
]
COL = ['colors_event_log']
TABLE += [
    c(WP.TracesDiversityDiagram2, 'TracesDiversityDiagram', COL, title, save, legend, hs, ws),
    c(WP.TracesDiversityDiagram2Canvas, 'TracesDiversityDiagram', COL, save, nolegend, title, hs, ws),
    c(WP.DrawPlacementsOfEventByName2, 'DrawPlacementOfEventByName', COL, ('event_name', S, REQ, 'event_name'), title, save, legend, hs, ws),
    c(WP.DrawPlacementsOfEventByName2Canvas, 'DrawPlacementOfEventByName', COL, ('event_name', S, REQ, 'event_name'), save, nolegend, title, hs, ws),
    c(WP.DrawPlacementOfEventsByRegex2, 'DrawPlacementOfEventsByRegex', COL, ('regex', S, REQ, 'regex'), title, save, legend, hs, ws),
    c(WP.DrawPlacementOfEventsByRegex2Canvas, 'DrawPlacementOfEventsByRegex', COL, ('regex', S, REQ, 'regex'), save, nolegend, title, hs, ws),
    c(WP.DrawFullActivitiesDiagram2, 'DrawFullActivitiesDiagram', COL, title, save, legend, hs, ws),
    c(WP.DrawFullActivitiesDiagram2Canvas, 'DrawFullActivitiesDiagram', COL, save, nolegend, title, hs, ws),
    c(WP.DrawShortActivitiesDiagram2, 'DrawShortActivitiesDiagram', COL, title, save, legend, hs, ws),
    c(WP.DrawShortActivitiesDiagram2Canvas, 'DrawShortActivitiesDiagram', COL, save, nolegend, title, hs, ws),
]
NAMES = [t[0].__name__ for t in TABLE] + ['DiscoverActivitiesFromPatterns2', 'PrintEventlogInfoBeforeAfter']
PATTERN_PARTS = {'MaximalRepeats': 'FindMaximalRepeats', 'SuperMaximalRepeats': 'FindSuperMaximalRepeats', 'NearSuperMaximalRepeats': 'FindNearSuperMaximalRepeats',
                 'PrimitiveTandemArrays': 'FindPrimitiveTandemArrays', 'MaximalTandemArrays': 'FindMaximalTandemArrays'}
RANGE = dict(show_visualization=[True, False], fig_size=[(7, 9), (3, 4)], view_params=[(-140, 60), (10, 20)], font_size=[14, 9], save_path=[None],
             n_components=list(NComponents), visualization_method=[DatasetVisualizationMethod.Pca], legend_cols=[1, 2, 3], title=[None, 'some title', ''],
             plot_legend=[True, False], height_scale=[1, 2, 0.5], width_scale=[1, 2, 3], name=['petri_net', 'dfg_graph', 'x y'], background_color=['white', 'red'],
             engine=['dot'], export_path=[None], rankdir=['LR', 'TB'], show_places_names=[True, False], annotation=[None])


def tag(kind, v):
    """(python argument, value on the wire or None)"""
    if isinstance(kind, type):
        return {'enum': {'enumType': ENUMS[kind][0], 'value': v}}
    if kind == F:
        return {'float': f32(v)}
    if kind == SS:
        return {'strings': {'strings': list(v)}}
    if kind == OS:
        return None if v is None else {'string': v}
    return {kind: v}


class Made:
    """A part with what the backend must read of it."""
    def __init__(self, cls, part, wire, kids, local, name):
        self.cls, self.part, self.wire, self.kids, self.local, self.name = cls, part, wire, kids, local, name

    def callbacks(self):
        own = [self] if isinstance(self.part, PipelinePart2WithCallback) else []
        return own + [x for k in self.kids for x in k.callbacks()]


def key(n):
    return {'name': n}


def config(conf):
    return {'configurationParameters': [{'key': key(k), 'value': v} for k, v in conf]}


def request(shape, conf, part):
    kind, name, keys = shape
    u = {'uuid': str(part.uuid)}
    if kind == 'default':
        return {'defaultPart': {'name': name, 'configuration': config(conf)}}
    if kind == 'simple':
        return {'simpleContextRequestPart': {'key': key(keys), 'frontendPartUuid': u}}
    return {'complexContextRequestPart': {'keys': [key(k) for k in keys], 'beforePipelinePart': {'name': name, 'configuration': config(conf)}, 'frontendPartUuid': u}}


def normal(part):
    """Configurations compare as mappings (a key given twice is kept visible)."""
    def conf(c):
        ks = [p.get('key', {}).get('name') for p in c['configurationParameters']]
        if len(set(ks)) != len(ks):
            return ('duplicate keys', ks)
        return {p['key']['name']: value(p.get('value')) for p in c['configurationParameters']}

    def value(v):
        if v and 'pipeline' in v:
            return {'pipeline': [normal(p) for p in v['pipeline']['parts']]}
        return v
    out = {}
    for k, v in part.items():
        v = dict(v)
        if k == 'defaultPart' and 'configuration' in v:
            v['configuration'] = conf(v['configuration'])
        if k == 'complexContextRequestPart' and 'beforePipelinePart' in v:
            b = v['beforePipelinePart'] = dict(v['beforePipelinePart'])
            if 'configuration' in b:
                b['configuration'] = conf(b['configuration'])
        out[k] = v
    return out


def pipeline(rng, texts, depth, local=None, only=None):
    made = [make(rng, texts, depth, local=local, only=only) for _ in range(rng.choice([0, 1, 2, 3]) if depth < 2 else rng.choice([0, 1]))]
    return Pipeline2(*[m.part for m in made]), made


def make(rng, texts, depth=0, name=None, local=None, only=None):
    """A random part of the given class. local(cls name, parameter) may give the value of a parameter that stays on this side."""
    pool = only or NAMES
    if name is None:
        name = rng.choice(pool)
        if depth >= 2:
            while any(n in name for n in ('UntilNoMore', 'EachActivityLog', 'LogTracesDbscan', 'BeforeAfter')):
                name = rng.choice(pool)
    if name == 'DiscoverActivitiesFromPatterns2':
        k = rng.choice(list(DM.PatternsKind))
        kw, st, ml, lv = {}, 'FromAllTraces', 20, 0
        if rng.random() < 0.6:
            e = rng.choice(list(STRAT))
            kw['strategy'], st = e, e.name
        if rng.random() < 0.6:
            ml = kw['max_array_length'] = rng.randrange(100)
        if rng.random() < 0.6:
            lv = kw['activity_level'] = rng.randrange(9)
        args = [k]
        if rng.random() < 0.3 and len(kw) == 3:
            args, kw = [k, kw['strategy'], kw['max_array_length'], kw['activity_level']], {}
        part = AP.DiscoverActivitiesFromPatterns2(*args, **kw)
        conf = [('tandem_array_length', {'uint32': ml})] if 'Tandem' in k.name else [('patterns_discovery_strategy', tag(STRAT, st))]
        inner = [{'defaultPart': {'name': PATTERN_PARTS[k.name], 'configuration': config(conf)}},
                 {'defaultPart': {'name': 'DiscoverActivities', 'configuration': config([('activity_level', {'uint32': lv})])}}]
        return Made(None, part, {'defaultPart': {'name': 'ExecuteFrontendPipeline', 'configuration': config([('pipeline', {'pipeline': {'parts': inner}})])}}, [], {}, name)
    if name == 'PrintEventlogInfoBeforeAfter':
        pl, kids = pipeline(rng, texts, depth + 1, local, only)
        part = UP.PrintEventlogInfoBeforeAfter(pl)
        ends = []
        for p in (part.before_part, part.after_part):
            ends.append(Made(PrintEventLogInfo2, p, request(('complex', 'GetEventLogInfo', ['event_log_info']), [], p), [], {}, 'PrintEventLogInfo2'))
        kids = [ends[0]] + kids + [ends[1]]
        return Made(None, part, {'defaultPart': {'name': 'ExecuteFrontendPipeline', 'configuration': config([('pipeline', {'pipeline': {'parts': [k.wire for k in kids]}})])}},
                    kids, {'inner': pl}, name)
    cls, shape, params = next(t for t in TABLE if t[0].__name__ == name)
    args, kw, conf, kids, loc = [], {}, [], [], {}
    positional = rng.random() < 0.3
    for pname, kind, dflt, wkey in params:
        given = dflt is REQ or rng.random() < 0.5
        if positional and not given:
            positional = False
        v = dflt
        if given:
            if isinstance(kind, type):
                e = rng.choice(list(kind))
                arg, v = e, e.name
            elif kind == U:
                arg = v = rng.choice([0, 1, 3, 50, 2 ** 32 - 1])
            elif kind == F:
                arg = v = rng.choice([0.0, 0.1, 0.25, 1.0, 1e-5, rng.random()])
            elif kind == B:
                arg = v = rng.random() < 0.5
            elif kind == S:
                arg = v = rng.choice(texts)
            elif kind == OS:
                arg = v = rng.choice(texts + [None])
            elif kind == SS:
                arg = v = [rng.choice(texts) for _ in range(rng.randint(0, 4))]
            elif kind in (PIPE, OPIPE):
                arg, made = pipeline(rng, texts, depth + 1, local, only)
                v, kids = {'parts': [m.wire for m in made]}, made
            else:
                arg = v = local(name, pname) if local and local(name, pname) is not None else rng.choice(RANGE[pname])
            if positional:
                args.append(arg)
            else:
                kw[pname] = arg
        if wkey is None:
            loc[pname] = v
        elif kind in (PIPE, OPIPE):
            if v is not None:
                conf.append((wkey, {'pipeline': v}))
        else:
            t = tag(kind, v)
            if t is not None:
                conf.append((wkey, t))
    part = cls(*args, **kw)
    return Made(cls, part, request(shape, conf, part), kids, loc, name)

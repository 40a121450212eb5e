"""P48: clustering of activities and of traces through the pipeline parts of the backend (Rust, through the gRPC service)."""
import math
import re
from collections import Counter

from .. import service as sv, svcmodel as M
from ..service import Steps, enum, names, prepare, real, text, u32, worker_end, worker_start  # noqa: F401
from .p46 import PARTS, UNDEF, several, abstract, activity_nodes, class_of, diagram, find, instances, plain, setup, short_diagram, undef

ID = 'P48'
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 200000}
RULE = ('pipelines that discover activities in a log or in its abstraction, make the dataset of the activities from all sources at the level or at another one, cluster them by '
        'k-means, by a search for the number of clusters or by density with all distances, draw both diagrams, make the dataset again, build the abstracted log; pipelines that '
        'cluster the traces of a log or of an abstracted log by density with all distances and sources and execute a pipeline per cluster, some of which change their log; half '
        'of the parts are written by the Python client; non-trivial: at least two activities or two traces')
ASSUMPTIONS = ['crates that are not in the sandbox, also the clustering library, are replaced by stand-ins (see P45)',
               'a density clustering is judged where no distance is within 0.0001 of the tolerance']
REQUIRED_EVENTS = ['activities', 'traces', 'dataset', 'source:EventClasses', 'source:SubTraces', 'source:SubTracesUnderlyingEvents', 'method:KMeans', 'method:KMeansGridSearch',
                   'method:Dbscan', 'distance:Cosine', 'distance:L1', 'distance:L2', 'distance:Levenshtein', 'merged', 'joined', 'kept apart', 'noise', 'noise kept', 'border', 'other level',
                   'abstracted log', 'deeper parts', 'representation:Events', 'representation:UnderlyingEvents', 'representation:DeepestUnderlyingEvents', 'event class', 'other class',
                   'several clusters', 'pipeline that changes its log', 'no distance between activities', 'too few points', 'too few activities', 'no repeat set',
                   'again without a subtrace', 'constant column', 'written by the client', 'several merged clusters',
                   'levels', 'second level', 'parts of parts', 'mode:FromAllLog', 'mode:FromUnattachedSubTraces']
LOOK = ('ask', 'GetNamesEventLog', {}, ['names_event_log'])


def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def dataset_of(v):
    d = v['dataset'] if 'columnsNames' not in v else v
    rows = (d.get('matrix') or {}).get('rows') or []
    return [r.get('values') or [] for r in rows], d.get('columnsNames') or [], d.get('rowNames') or []


def scaled(mon, counts):
    """Every column of counts brought to [0, 1]; a constant column is 1."""
    rows = [list(map(float, r)) for r in counts]
    for j in range(len(rows[0]) if rows else 0):
        col = [r[j] for r in rows]
        low, high = min(col), max(col)
        if low == high:
            mon.event('constant column')
        for r in rows:
            r[j] = 1.0 if low == high else (r[j] - low) / (high - low)
    return rows


def counted(mon, bags, scale=True):
    cols = sorted({k for b in bags for k in b}, key=lambda s: s.encode())
    return scaled(mon, [[b.get(c, 0) for c in cols] for b in bags]), cols


def judge_dataset(mon, got, rows, cols, order, what, w):
    g, c, n = dataset_of(got)
    mon.event('dataset')
    mon.equal(n, order, f'{what}: one row per object, in order', **w)
    mon.equal(c, cols, f'{what}: one column per class, in order', **w)
    mon.equal(len(g), len(rows), f'{what}: one row of numbers per object', **w)
    mon.check(all(len(a) == len(b) and all(abs(x - f32(y)) < 1e-6 for x, y in zip(a, b)) for a, b in zip(g, rows)), f'{what}: the numbers', sent=g, counted=rows, columns=cols, objects=n, **w)


def distance(kind, a, b):
    if kind == 'L1':
        return sum(abs(x - y) for x, y in zip(a, b))
    if kind == 'L2':
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    if kind == 'Cosine':
        return 1.0 - sum(x * y for x, y in zip(a, b)) / (math.sqrt(sum(x * x for x in a)) * math.sqrt(sum(y * y for y in b)))
    row = list(range(len(a) + 1))
    for j, y in enumerate(b, 1):
        new = [j]
        for i, x in enumerate(a, 1):
            new.append(row[i - 1] if x == y else 1 + min(row[i], new[-1], row[i - 1]))
        row = new
    return float(row[-1])


def judge_density(mon, rows, labels, kind, tolerance, least, w):
    """Labels against the definition of density-based clusters; 0 is noise."""
    n = len(rows)
    if rows and not rows[0] or kind == 'Cosine' and any(not any(r) for r in rows):
        return
    d = [[distance(kind, a, b) for b in rows] for a in rows]
    if any(abs(x - tolerance) < 1e-4 for r in d for x in r):
        return
    near = [[j for j in range(n) if d[i][j] <= tolerance] for i in range(n)]
    core = [len(x) >= least for x in near]
    comp = [0] * n
    kinds = 0
    for i in range(n):
        if core[i] and not comp[i]:
            kinds += 1
            todo = [i]
            while todo:
                x = todo.pop()
                if not comp[x]:
                    comp[x] = kinds
                    todo += [j for j in near[x] if core[j]]
    of = {}
    for i in range(n):
        if core[i]:
            mon.equal(of.setdefault(comp[i], labels[i]), labels[i], 'dense objects that are close have one label', objects=rows, labels=labels, distances=d, **w)
            mon.check(labels[i] > 0, 'a dense object is not noise', objects=rows, labels=labels, **w)
        else:
            may = {comp[j] for j in near[i] if core[j]}
            if may:
                mon.event('border')
                mon.check(labels[i] > 0 and any(labels[j] == labels[i] for j in near[i] if core[j]), 'an object next to a dense one belongs to a cluster of its neighbours', objects=rows, labels=labels, **w)
            else:
                mon.event('noise')
                mon.equal(labels[i], 0, 'an object far from all dense ones is noise', objects=rows, labels=labels, distances=d, **w)
    mon.equal(len(set(of.values())), len(of), 'dense objects that are not connected have different labels', objects=rows, labels=labels, distances=d, **w)
    if kinds > 1:
        mon.event('several clusters')


def occurrences(log, patterns, key):
    """name -> (trace, start, end) of the occurrence that an activity is made from."""
    seen, out = set(), {}
    for i, (t, row) in enumerate(zip(log, patterns)):
        for s, e in row:
            ks = [key(x) for x in t[s:e]]
            if frozenset(ks) not in seen:
                seen.add(frozenset(ks))
                out['::'.join(f'({k})' for k in ks)] = (i, s, e)
    return out


def merged(rows, cluster):
    """Instances after merging: renamed, contiguous ones of one name joined."""
    out, joined = [], 0
    for r in rows:
        row = []
        for name, s, n in r:
            name = cluster.get(name, name)
            if name is not None and row and row[-1][0] == name:
                row[-1] = (name, row[-1][1], row[-1][2] + n)
                joined += 1
            else:
                row.append((name, s, n))
        out.append(row)
    return out, joined


def activities(rng, mon, raw, s):
    rounds = rng.choice([1, 1, 2])
    source = rng.choice(['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents'])
    if rng.random() < 0.12:
        raw, rounds, source = nested(rng), 3, rng.choice(['SubTraces', 'SubTracesUnderlyingEvents', 'SubTracesUnderlyingEvents'])
        s = dict(s, kind='PrimitiveTandemArrays', max_len=5, regex=None, undef='InsertAllEvents', filt='NoFilter')
    method = rng.choice(['KMeans', 'KMeansGridSearch', 'Dbscan', 'Dbscan'])
    kind = rng.choice(['Cosine', 'L1', 'L2'])
    own = rng.choice([s['regex'], s['regex'], None, '.', '[a-zé]+'])
    level = s['level'] if rng.random() < 0.85 else s['level'] + 1
    w = dict(log=raw, settings=s, source=source, method=method, distance=kind, regex=own)
    key = class_of(own)
    mon.event('source:' + source)
    mon.event('method:' + method)
    mon.event('distance:' + kind)
    if own is not None:
        mon.event('event class' if own == s['regex'] else 'other class')
    reg = {'event_class_regex': text(s['regex'])} if s['regex'] else {}
    start = [('do', 'UseNamesEventLog', {})]
    discover = [('do', 'Find' + s['kind'], find(s)), ('get', 'patterns'),
                ('do', 'DiscoverActivities', {'activity_level': u32(s['level']), **reg}), ('do', 'DiscoverActivitiesInstances', instances(s)),
                ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])]
    conf = {'activity_level': u32(level), 'activities_repr_source': enum('ActivityRepresentationSource', source)}
    if own is not None:
        conf['event_class_regex'] = text(own)
    data = ('ask', 'CreateTracesActivitiesDataset', conf, ['traces_activities_dataset'])
    between = [('do', 'CreateLogFromActivities', undef(s)), LOOK, ('do', 'ClearActivities', {})]
    # what the log looks like and which activities it has, round by round
    log, steps = plain(raw), list(start)
    for turn in range(rounds):
        steps += discover
        a = sv.S.get(steps + [data], {'names_event_log': names(raw)}, client=rng)
        r = [v for _, v in a.results]
        flat = [[e[0] for e in t] for t in log]
        found = [v for v in r if 'patterns' in v][-1]['patterns']['traces_sub_arrays']['traces_sub_arrays']
        patterns = [[(x['start'], x['end']) for x in t['sub_arrays']] for t in found]
        colours = M.Colours()
        rows = diagram(mon, flat, [v for v in r if 'colors_event_log' in v][-1]['colors_event_log'], colours, 'before clustering', w)
        if turn + 1 < rounds:
            steps += between
            new = abstract(log, rows, s['undef'])
            if not any(new):
                break
            log = new
            mon.event('abstracted log')
    if turn + 1 < rounds:
        return
    w['shown'] = flat
    nodes = activity_nodes(flat, patterns, class_of(s['regex']))
    where = occurrences(flat, patterns, class_of(s['regex']))
    present = {name for row in rows for name, _, _ in row if name is not None}
    mon.check(present <= set(nodes), 'an instance is named after an activity', activities=nodes, **w)
    order = sorted(present, key=lambda x: x.encode()) if level == s['level'] else []
    if level != s['level']:
        mon.event('other level')

    def bag(name):
        if name not in where:
            return Counter()
        i, a, b = where[name]
        part = log[i][a:b]
        ks = [key(x) for e in part for x in e[1]] if source == 'SubTracesUnderlyingEvents' else [key(e[0]) for e in part]
        if source == 'SubTracesUnderlyingEvents' and any(e[2] for e in part):
            mon.event('deeper parts')
            if any(x[2] for e in part if e[2] for x in e[2]):
                mon.event('parts of parts')
        return Counter(set(ks)) if source == 'EventClasses' else Counter(ks)
    numbers, cols = counted(mon, [bag(x) for x in order])
    judge_dataset(mon, r[-1]['traces_activities_dataset']['dataset'], numbers, cols, order, 'the dataset of the activities', w)
    if own is None and source != 'SubTracesUnderlyingEvents':
        mon.check(all(set(bag(x)) == {e for e in flat[where[x][0]][where[x][1]:where[x][2]]} for x in order), 'the model counts the events of the activity', **w)
    # clustering
    wrong = rng.random()
    if wrong < 0.06:
        mon.event('no distance between activities')
        conf = {**conf, 'tolerance': real(0.5), 'distance': enum('FicusDistance', 'Levenshtein'), 'clusters_count': u32(2), 'learning_iterations_count': u32(5),
                'min_events_in_cluster_count': u32(2)}
        a = sv.S.execute(steps + [('do', 'ClusterizeActivitiesFromTraces' + method, conf)], {'names_event_log': names(raw)}, client=None)
        mon.equal(a.error, 'Failed to create activities clustering params', 'there is no such distance between activities', final=a.final, **w)
        return
    distinct = len({tuple(x) for x in numbers})
    conf = {**conf, 'tolerance': real(rng.choice([0.05, 0.31, 0.57, 0.83, 1.3, 1.7, 2.6])), 'distance': enum('FicusDistance', kind)}
    tolerance = f32(conf['tolerance']['float'])
    least = clusters = None
    if method == 'Dbscan':
        least = rng.choice([2, 2, 2, 3, 4] if wrong > 0.12 else [0, 1])
        conf['min_events_in_cluster_count'] = u32(least)
    else:
        conf['learning_iterations_count'] = u32(rng.choice([1, 3, 50]))
        if method == 'KMeans':
            if not distinct:
                return
            clusters = rng.randint(1, max(1, len(order)))
            conf['clusters_count'] = u32(clusters)
    w.update(tolerance=tolerance, least=least, clusters=clusters)
    again = rng.random() < 0.5
    cluster = steps + [('ask', 'ClusterizeActivitiesFromTraces' + method, conf, ['labeled_traces_activities_dataset'])]
    after = [('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log']), ('ask', 'DrawShortActivitiesDiagram', {}, ['colors_event_log'])]
    if again:
        after.append(data)
    after += [('do', 'CreateLogFromActivities', undef(s)), LOOK, ('ask', 'GetUnderlyingEventsCount', {}, ['underlying_events_count'])]
    a = sv.S.execute(cluster + after, {'names_event_log': names(raw)}, client=rng)
    if a.guid:
        sv.S.drop(a.guid)
    if least is not None and least < 2:
        mon.event('too few points')
        mon.check(a.error is not None and a.guid is None, 'a cluster has two objects at least', final=a.final, **w)
        return
    if method == 'KMeansGridSearch' and len(order) < 3:
        mon.event('too few activities')
        mon.equal(a.error, 'Failed to find best labels in K-means grid search', 'there is no number of clusters to try', final=a.final, **w)
        return
    got = [v for _, v in a.results if 'labeled_traces_activities_dataset' in v]
    mon.equal(len(got), 1, 'the labelled dataset is sent', final=a.final, **w)
    lab = got[0]['labeled_traces_activities_dataset']['labeled_dataset']
    judge_dataset(mon, lab['dataset'], numbers, cols, order, 'the labelled dataset', w)
    labels = lab.get('labels') or []
    shades = [sv.colour(c) for c in lab.get('labelsColors') or []]
    mon.equal((len(labels), len(shades)), (len(order), len(order)), 'one label and one colour per object', **w)
    same = {}
    for row, label in zip(numbers, labels):
        if method != 'Dbscan':
            mon.equal(same.setdefault(tuple(row), label), label, 'equal objects have equal labels', objects=numbers, labels=labels, **w)
    if method == 'KMeans':
        mon.check(all(0 <= x < clusters for x in labels), 'no more clusters than asked for', labels=labels, **w)
    elif method == 'KMeansGridSearch':
        mon.check(all(0 <= x < len(order) - 1 for x in labels), 'fewer clusters than activities', labels=labels, **w)
    else:
        judge_density(mon, numbers, labels, kind, tolerance, least, w)
    colours = M.Colours()
    for label, c in zip(labels, shades):
        mon.check(colours.fits(f'CLUSTER_{label}', c), 'one colour per label, one label per colour', labels=labels, colours=shades, **w)
    size = Counter(x for x in labels if method != 'Dbscan' or x)
    to = {n: f'CLUSTER_{x}' for n, x in zip(order, labels) if size[x] > 1}
    exp, joined = merged(rows, to)
    if sum(x > 1 for x in size.values()) > 1:
        mon.event('several merged clusters')
    if to:
        mon.event('merged')
    if joined:
        mon.event('joined')
    if set(order) - set(to):
        mon.event('kept apart')
    if method == 'Dbscan' and 0 in labels:
        mon.event('noise kept')
    r = [v for k, v in a.results][[v for _, v in a.results].index(got[0]) + 1:]
    full = diagram(mon, flat, r[0]['colors_event_log'], colours, 'after clustering', dict(w, labels=labels))
    mon.equal(full, exp, 'the activities of a cluster become one activity named and coloured like the cluster', labels=labels, activities=order, before=rows, **w)
    short_diagram(mon, full, r[1]['colors_event_log'], colours, w)
    bad = again and source == 'EventClasses' and to
    if bad:
        mon.event('no repeat set')
        mon.equal(a.error, 'NoRepeatSet', 'merged activities have no event classes to compare', final=a.final, **w)
    else:
        mon.check(a.error is None and a.guid, 'a valid pipeline succeeds', final=a.final, **w)
        if again:
            names2 = sorted({to.get(x, x) for x in order}, key=lambda x: x.encode())
            numbers2, cols2 = counted(mon, [bag(x) for x in names2])
            if to:
                mon.event('again without a subtrace')
            judge_dataset(mon, r[2]['traces_activities_dataset']['dataset'], numbers2, cols2, names2, 'the dataset after clustering', dict(w, labels=labels))
        new = abstract(log, full, s['undef'])
        mon.equal(sv.names_of(r[-2]['names_event_log']), [[e[0] for e in t] for t in new], 'the abstracted log has the merged activities', **w)
        mon.equal(r[-1]['underlying_events_count'], {'uint32': sum(len(e[1]) for t in new for e in t)}, 'the number of underlying events', **w)
    mon.event('activities')
    if len(order) > 1:
        mon.distinct(numbers, labels, rows)
        mon.sample({'activities': order, 'labels': labels})



def traces(rng, mon, raw, s):
    kind = rng.choice(['Cosine', 'L1', 'L2', 'Levenshtein'])
    repr_source = rng.choice(['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents'])
    own = rng.choice([None, s['regex'], '.', '[a-zé]+'])
    key = class_of(own)
    tolerance = f32(rng.choice([0.02, 0.21, 0.57, 0.83, 1.3, 1.7] if kind != 'Levenshtein' else [0.5, 1.5, 2.5, 4.5]))
    least = rng.choice([2, 2, 2, 3, 5]) if rng.random() > 0.05 else rng.choice([0, 1])
    rounds = rng.choice([0, 0, 1, 2])
    w = dict(log=raw, settings=s, distance=kind, representation=repr_source, regex=own, tolerance=tolerance, least=least)
    mon.event('distance:' + kind)
    mon.event('representation:' + repr_source)
    if own is not None:
        mon.event('event class')
    reg = {'event_class_regex': text(s['regex'])} if s['regex'] else {}
    steps, log = [('do', 'UseNamesEventLog', {})], plain(raw)
    for _ in range(rounds):
        steps += [('do', 'Find' + s['kind'], find(s)), ('do', 'DiscoverActivities', {'activity_level': u32(s['level']), **reg}),
                  ('do', 'DiscoverActivitiesInstances', instances(s)), ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log']),
                  ('do', 'CreateLogFromActivities', undef(s)), ('do', 'ClearActivities', {})]
    if rounds:
        a = sv.S.get(steps, {'names_event_log': names(raw)}, client=rng)
        for _, v in a.results:
            rows = diagram(mon, [[e[0] for e in t] for t in log], v['colors_event_log'], M.Colours(), 'a round', w)
            log = abstract(log, rows, s['undef'])
        mon.event('abstracted log')
    flat = [[e[0] for e in t] for t in log]
    inner, change = Steps([LOOK]), None
    if rng.random() < 0.4:
        mon.event('pipeline that changes its log')
        change = rng.choice(['ApplyClassExtractor', 'AddArtificialStartEndEvents', 'SubstituteUnderlyingEvents'])
        inner.append(('do', change, {'ApplyClassExtractor': {'event_class_regex': text('.'), 'regex': text('.*')}}.get(change, {})))
        inner.append(LOOK)
    conf = {'tolerance': real(tolerance), 'distance': enum('FicusDistance', kind), 'traces_repr_source': enum('TracesRepresentationSource', repr_source),
            'min_events_in_cluster_count': u32(least), 'pipeline': inner}
    if own is not None:
        conf['event_class_regex'] = text(own)
    a = sv.S.execute(steps + [('do', 'ClusterizeLogTraces', conf), LOOK, ('get', 'labeled_log_traces_dataset')], {'names_event_log': names(raw)}, client=rng)
    if least < 2:
        mon.event('too few points')
        mon.check(a.error is not None and a.guid is None, 'a cluster has two objects at least', final=a.final, **w)
        return
    mon.check(a.error is None and a.guid, 'a valid pipeline succeeds', final=a.final, **w)
    sv.S.drop(a.guid)
    r = [v for k, v in a.results if 'colors_event_log' not in v]
    lab = r.pop()['labeled_log_traces_dataset']['labeled_dataset']
    mon.equal(sv.names_of(r.pop()['names_event_log']), flat, 'clustering and the pipelines of the clusters leave the log as it was', change=change, **w)
    words = []
    for t in log:
        part = [e for e in t] if repr_source == 'Events' else [x for e in t for x in (e[2] if e[2] is not None else [e])] if repr_source == 'UnderlyingEvents' else None
        if repr_source == 'UnderlyingEvents' and any(x[2] for x in part):
            mon.event('deeper parts')
        words.append([key(x) for e in t for x in e[1]] if part is None else [key(e[0]) for e in part])
    order = [f'Trace_{i}' for i in range(len(words))]
    if kind == 'Levenshtein':
        code = {}
        for x in (c for t in words for c in t):
            code.setdefault(x, len(code) + 1)
        wide = max((len(t) + 1 for t in words), default=0)
        numbers = [[float(code[c]) for c in t] + [0.0] * (wide - len(t)) for t in words]
        cols = [f'Symbol_{i}' for i in range(wide)]
    else:
        numbers, cols = counted(mon, [Counter(t) for t in words])
    judge_dataset(mon, lab['dataset'], numbers, cols, order, 'the dataset of the traces', w)
    labels = lab.get('labels') or []
    shades = [sv.colour(c) for c in lab.get('labelsColors') or []]
    mon.equal((len(labels), len(shades)), (len(order), len(order)), 'one label and one colour per trace', **w)
    colours = M.Colours()
    for label, c in zip(labels, shades):
        mon.check(colours.fits(f'CLUSTER_{label}', c), 'one colour per label, one label per colour', labels=labels, colours=shades, **w)
    judge_density(mon, numbers, labels, kind, tolerance, least, w)
    parts = {}
    for t, label in zip(log, labels):
        parts.setdefault(label, []).append(t)
    exp = []
    for part in parts.values():
        one = [[[e[0] for e in t] for t in part]]
        if change == 'SubstituteUnderlyingEvents':
            one.append([[x for e in t for x in e[1]] for t in part])
        elif change == 'AddArtificialStartEndEvents':
            one.append([['ARTIFICIAL_START', *(e[0] for e in t), 'ARTIFICIAL_END'] for t in part])
        elif change:
            one.append(None)
        exp.append(one)
    mon.equal(len(r), sum(map(len, exp)), 'the pipeline is executed once per cluster', labels=labels, **w)
    step = 2 if change else 1
    sent = [[sv.names_of(v['names_event_log']) for v in r[i:i + step]] for i in range(0, len(r), step)]
    if change == 'ApplyClassExtractor':
        for x in sent:
            mon.check([len(t) for t in x[1]] == [len(t) for t in x[0]], 'a pipeline changes the log of its cluster', before=x[0], after=x[1], **w)
            x[1] = None
    mon.equal(sorted(map(repr, sent)), sorted(map(repr, exp)), 'one log per cluster with exactly its traces', labels=labels, change=change, **w)
    mon.event('traces')
    if len(order) > 1:
        mon.distinct(numbers, labels)
        mon.sample({'traces': flat[:6], 'labels': labels[:6]})


def levels(rng, mon, raw, s):
    """The datasets of several levels; each from the occurrences that the level found."""
    regexes = [rng.choice(['.*', '[a-z]+', '[a-z]', 'a', 'zz+']) for _ in range(rng.choice([1, 2, 2]))]
    mode = rng.choice(['FromAllLog', 'FromUnattachedSubTraces'])
    low = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.15:
        raw = [['x_1', 'y_1'] * 2 + ['ab_1', 'cd_1', 'ab_2', 'cd_2']] * 2
        regexes, low, s = ['[a-z]+', '.*'], 0, dict(s, filt='NoFilter', kind='PrimitiveTandemArrays')
    source = rng.choice(['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents'])
    mon.event('levels')
    mon.event('mode:' + mode)
    w = dict(log=raw, settings=s, regexes=regexes, mode=mode, low=low, source=source)
    free = raw
    for count in range(1, len(regexes) + 1):
        steps = [('do', 'UseNamesEventLog', {}), several(s, regexes[-count:], low, mode), ('ask', 'DrawFullActivitiesDiagram', {}, ['colors_event_log'])]
        own = rng.choice([regexes[-count], regexes[-count], '.*', '.'])
        for i in range(count + 1):
            conf = {'activity_level': u32(s['level'] + i), 'activities_repr_source': enum('ActivityRepresentationSource', source), 'event_class_regex': text(own)}
            steps.append(('ask', 'CreateTracesActivitiesDataset', conf, ['traces_activities_dataset']))
        r = [v for _, v in sv.S.get(steps, {'names_event_log': names(raw)}, client=rng).results]
        b = sv.S.get([('do', 'UseNamesEventLog', {}), ('do', 'Find' + s['kind'], find(dict(s, regex=regexes[-count]))), ('get', 'patterns')], {'names_event_log': names(free)}, client=rng)
        patterns = [[(x['start'], x['end']) for x in t['sub_arrays']] for t in b.results[0][1]['patterns']['traces_sub_arrays']['traces_sub_arrays']]
        rows = diagram(mon, raw, r.pop(0)['colors_event_log'], M.Colours(), 'several levels', w)
        orders = [dataset_of(v['traces_activities_dataset']['dataset'])[2] for v in r]
        mon.equal(sorted({x for o in orders for x in o}), sorted({n for row in rows for n, _, _ in row if n is not None}), 'the datasets of all levels have all activities', **w)
        mon.equal(orders[count], [], 'there is no level beyond the last', **w)
        where, key, order = occurrences(free, patterns, class_of(regexes[-count])), class_of(own), orders[count - 1]
        mon.check(set(order) <= set(where), 'a level has the activities that it found', order=order, activities=where, **w)
        bags = [Counter(key(x) for x in free[i][a:b]) for i, a, b in (where[x] for x in order)]
        numbers, cols = counted(mon, [Counter(set(x)) for x in bags] if source == 'EventClasses' else bags)
        got, got_cols, _ = dataset_of(r[count - 1]['traces_activities_dataset']['dataset'])
        mon.event('dataset')
        mon.event('second level' if count > 1 and order else 'first level')
        fits = got_cols == cols and len(got) == len(numbers) and all(len(a) == len(b) and all(abs(x - f32(y)) < 1e-6 for x, y in zip(a, b)) for a, b in zip(got, numbers))
        mon.check(fits, 'the dataset of a level counts the events of its activities', mechanism='unattached-subtraces-dataset' if free is not raw else None,
                  sent=(got_cols, got), counted=(cols, numbers), order=order, own=own, diagram=rows, **w)
        if mode == 'FromUnattachedSubTraces':
            free = [[e for name, i, n in r for e in t[i:i + n] if name is None] for t, r in zip(raw, rows)]
        if len(order) > 1:
            mon.distinct(numbers, rows)


def nested(rng):
    """Repeated words with repeated words inside."""
    al = list('abcdefghijkl')
    rng.shuffle(al)
    unit = []
    for _ in range(3):
        unit = unit * rng.choice([2, 3]) + [al.pop() for _ in range(rng.choice([1, 2]) if unit else 2)]
    other = [al.pop(), al.pop()] * 2
    return [unit * 2 + rng.choice([[], other]) for _ in range(rng.choice([1, 2]))] + rng.choice([[], [other + unit]])


def families(rng, al):
    """A log of repeated words that come in families of similar ones."""
    al = list(al)
    rng.shuffle(al)
    words = []
    for k in range(rng.choice([1, 2, 2, 3])):
        stem, ends = al[3 * k:3 * k + rng.choice([1, 2, 2])], [x for x in al if x not in al[3 * k:3 * k + 2]]
        for e in rng.sample(ends, rng.randint(1, 4)):
            words.append(rng.sample(stem + [e] * rng.choice([1, 1, 2]), len(stem) + 1))
    log = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        if log and rng.random() < 0.4:
            t = list(rng.choice(log))
            if t:
                t[rng.randrange(len(t))] = rng.choice(al)
        else:
            t = []
            for _ in range(rng.choice([1, 2, 3, 4, 6])):
                t += rng.choice(words) * rng.choice([1, 2, 2, 3])
                if rng.random() < 0.3:
                    t.append(rng.choice(al))
        log.append(t)
    return log


def run_case(rng, index, mon):
    raw, s = setup(rng, mon)
    if rng.random() < 0.75:
        raw = families(rng, ['ab_1', 'ab_2', 'cd_1', 'cd_2', 'ef_1', 'ef_2', 'gh_1', 'x_1', 'x_2', 'ß_1', 'z_1', '🚚_1'] if s['regex'] or rng.random() < 0.3 else 'abcdefghijkl')
    (traces if index % 5 < 2 else levels if index % 10 == 9 else activities)(rng, mon, raw, s)

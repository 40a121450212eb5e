"""P47: patterns, process models, annotations and files of models through the backend's pipelines (Rust, through the gRPC service)."""
import os
from collections import Counter
from datetime import datetime, timedelta, timezone
from xml.sax.saxutils import quoteattr

from .. import service as sv, wire
from ..service import enum, flag, names, prepare, real, text, u32, worker_end, worker_start  # noqa: F401
from . import p37, p40, p41, p44

ID = 'P47'
LEVEL = 'exploration'
CASES = {'quick': 5000, 'thorough': 80000}
RULE = ('random logs are sent as messages or as XES files with time stamps to the real service; the parts that find repeats and tandem arrays, mine Petri nets (alpha, alpha+, '
        'alpha++, nfc, heuristic) and fuzzy graphs, add a marking, annotate and write PNML files run with random settings, half of them written by the Python client; the values '
        'sent are judged by the definitions that P37, P40, P41 and P44 use; non-trivial: at least two classes')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (see P45)', 'settings and frequencies travel in single precision; thresholds are rounded to it first',
               'alpha++ nfc is judged by its structure and by metamorphic relations only']
REQUIRED_EVENTS = ['repeat', 'repeat:super', 'repeat:near', 'merged repeat', 'tandem', 'primitive', 'alpha', 'plus', 'plusplus', 'nfc', 'place of sets', 'one-length loop',
                   'heuristic', 'and group', 'loop of two', 'fuzzy', 'cluster', 'edge filtered', 'conflict one way', 'mined net', 'replayed', 'not replayable', 'terminated', 'frequencies',
                   'pnml', 'pnml names', 'from a file', 'from a message', 'marking added', 'marked net replayed', 'marked net not replayed', 'silent fired', 'no marking', 'bad path',
                   'written by the client', 'annotation together', 'empty log', 'file there before', 'another net before']
PATTERNS = {'max': 'FindMaximalRepeats', 'super': 'FindSuperMaximalRepeats', 'near': 'FindNearSuperMaximalRepeats'}
MINERS = {'alpha': 'DiscoverPetriNetAlpha', 'plus': 'DiscoverPetriNetAlphaPlus', 'plusplus': 'DiscoverPetriNetAlphaPlusPlus', 'nfc': 'DiscoverPetriNetAlphaPlusPlusNfc'}
ANNOTATE = [('counts', 'AnnotatePetriNetWithCount', 'petri_net_count_annotation'), ('freq', 'AnnotatePetriNetWithFrequency', 'petri_net_frequency_annotation'),
            ('trace_freq', 'AnnotatePetriNetWithTraceFrequency', 'petri_net_trace_frequency_annotation')]
FLOATS = {'dep': 'dependency_threshold', 'rel': 'relative_to_best_threshold', 'and': 'and_threshold', 'loop2': 'loop_length_two_threshold'}
FUZZY = {'unary': 'unary_frequency_threshold', 'binary': 'binary_frequency_significance_threshold', 'preserve': 'preserve_threshold', 'ratio': 'ratio_threshold',
         'utility': 'utility_rate', 'edge_cutoff': 'edge_cutoff_threshold', 'node_cutoff': 'node_cutoff_threshold'}
START = datetime(2024, 2, 28, 23, 0, tzinfo=timezone.utc)


def annotation(v):
    """Annotation on the wire -> [[arc, number]]."""
    for k, n in (('count_annotation', 'count'), ('frequency_annotation', 'frequency')):
        if k in v:
            return [[x['entityId'], x[n]] for x in v[k]['annotations']]
    return None


def fire_all(net, trace):
    """Transitions fired by a replay of the trace, or None (False: not decided)."""
    if net['initial'] is None:
        return None
    m0 = tuple(sorted((p, n) for p, n in net['initial'] if n))
    todo, seen = [(0, m0, ())], {(0, m0)}
    while todo:
        i, m, path = todo.pop()
        if i == len(trace):
            return list(path)
        marks = dict(m)
        for t in net['transitions']:
            if not t['silent'] and t['name'] != trace[i]:
                continue
            nxt = p41.fire(t, marks)
            if nxt is None:
                continue
            s = (i + (not t['silent']), tuple(sorted(nxt.items())))
            if s not in seen:
                seen.add(s)
                todo.append(s + (path + (t['id'],),))
                if len(seen) > 100000:
                    return False
    return None


class Pipelines:
    """Answers the questions of the judges of other properties by pipelines of the service."""
    eps = 1e-5

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon

    @staticmethod
    def rounded(th):
        return {k: wire.f32(v) if isinstance(v, float) else v for k, v in th.items()}

    def load(self, log, times=None):
        """First part and initial values of a pipeline that works on the log."""
        log = [[str(e) for e in t] for t in log]
        if times is None and self.rng.random() < 0.6:
            self.mon.event('from a message')
            return [('do', 'UseNamesEventLog', {})], {'names_event_log': names(log)}
        self.mon.event('from a file')
        path = os.path.join(self.mon.scratch, self.rng.choice(['log.xes', 'лог.xes', 'a b.xes']))
        rows = []
        for i, t in enumerate(log):
            rows.append('<trace>')
            for j, e in enumerate(t):
                at = START + timedelta(seconds=times[i][j] if times else j)
                rows.append(f'<event><string key="concept:name" value={quoteattr(e)}/><date key="time:timestamp" value="{at.isoformat()}"/></event>')
            rows.append('</trace>')
        with open(path, 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?><log>' + '\n'.join(rows) + '</log>')
        return [('do', 'ReadLogFromXes', {})], {'path': text(path)}

    def get(self, steps, initial):
        return [v for _, v in sv.S.get(steps, initial, client=self.rng).results]

    def ask(self, op, log, **k):
        return getattr(self, op)(log, **k)

    def patterns(self, log, part, conf):
        steps, initial = self.load(log)
        v = self.get(steps + [('do', part, conf), ('get', 'patterns')], initial)[0]
        return [[[x['start'], x['end'] - x['start']] for x in t['sub_arrays']] for t in v['patterns']['traces_sub_arrays']['traces_sub_arrays']]

    def repeats(self, log, strategy, kind):
        return self.patterns(log, PATTERNS[kind], {'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', strategy)})

    def tandem(self, log, len, kind):
        plain = self.patterns(log, 'FindMaximalTandemArrays' if kind == 'max' else 'FindPrimitiveTandemArrays', {'tandem_array_length': u32(len)})
        return {'plain': plain, 'full': [[[s, n, p37.times(t, s, n)] for s, n in row] for t, row in zip(log, plain)]}

    def alpha(self, log, kind, replay, terminate, names):
        steps, initial = self.load(log)
        steps.append(('do', MINERS[kind], {}))
        if not replay:
            return {'net': sv.net_of(self.get(steps + [('get', 'petri_net')], initial)[0]['petri_net'])}
        return self.replay(steps, initial, log, terminate, names)

    def replay(self, steps, initial, log, terminate, by_name, silent=lambda name: False):
        path = os.path.join(self.mon.scratch, 'net.pnml')
        if os.path.exists(path):
            os.remove(path)
        if self.rng.random() < 0.3:
            self.mon.event('file there before')
            with open(path, 'w') as f:
                f.write('<old/>\n' * 20000)
        if self.rng.random() < 0.3:
            self.mon.event('another net before')
            first = [('do', part, {'terminate_on_unreplayable_traces': flag(False)}) for _, part, _ in self.rng.sample(ANNOTATE, 2)]
            steps = steps[:1] + [('do', MINERS[self.rng.choice(['alpha', 'plus', 'plusplus'])], {}), ('do', 'EnsureInitialMarking', {})] + first + steps[1:]
        order = self.rng.sample(ANNOTATE, 3)
        ask = [('ask', part, {'terminate_on_unreplayable_traces': flag(terminate)}, ['petri_net', key]) for _, part, key in order]
        a = sv.S.execute(steps + [('get', 'petri_net'), ('do', 'SerializePetriNet', {'path': text(path), 'pnml_use_names_as_ids': flag(by_name)})] + ask, initial, client=self.rng)
        r = [v for _, v in a.results]
        self.mon.check(bool(r), 'mining gives a net', final=a.final, log=log)
        net = sv.net_of(r[0]['petri_net'])
        for t in net['transitions']:
            t['silent'] = silent(t['name'])
        with open(path, encoding='utf-8') as f:
            pnml = f.read()
        out = {'fired': None if net['initial'] is None and log else [fire_all(net, t) for t in log], 'counts': None, 'freq': None, 'trace_freq': None}
        if a.error is not None:
            self.mon.equal((a.error, len(r)), ('Failed to annotate petri net', 1), 'the first annotation fails or none', log=log, order=order)
        else:
            self.mon.event('annotation together')
            for (what, _, key), v in zip(order, r[1:]):
                again = sv.net_of(v['petri_net'])
                self.mon.equal([dict(t, silent=0) for t in again['transitions']], [dict(t, silent=0) for t in net['transitions']], 'annotating does not change the net', log=log)
                out[what] = annotation(v[key])
            sv.S.drop(a.guid)
        return {'net': net, 'replay': out, 'pnml': pnml}

    def heuristic(self, log, **th):
        steps, initial = self.load(log)
        v = self.get(steps + [self.heuristic_part(th), ('get', 'petri_net')], initial)[0]
        net = sv.net_of(v['petri_net'])
        for t in net['transitions']:
            t['silent'] = t['name'].startswith('silent_start_')
        return {'net': net}

    @staticmethod
    def heuristic_part(th):
        return ('do', 'DiscoverPetriNetHeuristic', {**{FLOATS[k]: real(v) for k, v in th.items() if k != 'pos'}, 'positive_observations_threshold': u32(th['pos'])})

    def fuzzy(self, log, times, **th):
        steps, initial = self.load(log, times)
        g = self.get(steps + [('do', 'DiscoverFuzzyGraph', {FUZZY[k]: real(v) for k, v in th.items()}), ('get', 'graph')], initial)[0]['graph']['graph']
        return {'nodes': [[n['id'], n['data']] for n in g['nodes']], 'edges': [[e['from_node'], e['to_node'], float(e['data'])] for e in g['edges']]}


def marked(mon, H, rng):
    """A mined net with an added marking is replayed."""
    log = p40.make_log(rng)[:5]
    kind = rng.choice(['heuristic', 'heuristic', 'alpha', 'plus', 'plusplus'])
    if kind == 'heuristic' and rng.random() < 0.6:
        # tasks that run side by side
        side = list('bcd')[:rng.choice([2, 2, 3])]
        rows = [['a'] + rng.sample(side, len(side)) + ['e'] for _ in range(rng.randint(2, 5))]
        log = [['s'] * (rng.random() < 0.3) + t for t in rows] + log[:rng.choice([0, 0, 1])]
    steps, initial = H.load(log)
    if kind == 'heuristic':
        th = H.rounded(dict(dep=rng.choice([0, 0.3, 0.5]), pos=rng.choice([0, 1, 1]), rel=rng.choice([0.05, 0.8, 1]), loop2=rng.choice([0.4, 0.95])))
        th['and'] = wire.f32(rng.choice([0.1, 0.65, 1.2]))
        mine = H.heuristic_part(th)
    else:
        mine = ('do', MINERS[kind], {})
    terminate, by_name = rng.random() < 0.4, rng.random() < 0.5
    ensure = rng.random() < 0.85
    steps += [mine, ('get', 'petri_net')] + ([('do', 'EnsureInitialMarking', {})] if ensure else [])
    w = dict(log=log, kind=kind)
    # the first net sent is the one before the marking is added
    seen = []
    real_get = sv.S.execute

    class Split:
        def __getattr__(self, k):
            return getattr(sv_s, k)

        def execute(self, *a, **k):
            ans = real_get(*a, **k)
            seen.append(sv.net_of(ans.results[0][1]['petri_net']))
            first = next(i for i, m in enumerate(ans.messages) if 'pipelinePartResult' in m)
            del ans.messages[first]
            return ans

    sv_s = sv.S
    sv.S = Split()
    try:
        out = H.replay(steps, initial, log, terminate, by_name, lambda n: n.startswith('silent_start_'))
    finally:
        sv.S = sv_s
    before, net = seen[0], out['net']
    if not ensure:
        if kind == 'heuristic':
            mon.equal(net['initial'], None, 'a heuristic net has no marking', **w)
    else:
        mon.event('marking added')
        old = {p[0] for p in before['places']}
        added = [p for p in net['places'] if p[0] not in old]
        mon.equal(sorted(p[1] for p in added), ['End', 'Start'], 'a start and an end place are added', **w)
        mon.equal(sorted(p for p in net['places'] if p[0] in old), sorted(before['places']), 'the places before are kept', **w)
        at = {p[1]: p[0] for p in added}
        mon.equal(net['initial'], [[at['Start'], 1]], 'the marking is one token at the new start', **w)
        byid = {t['id']: t for t in before['transitions']}
        names_ = Counter(t['name'] for t in before['transitions'])
        for key, place, ends in (('in', 'Start', {t[0] for t in log if t}), ('out', 'End', {t[-1] for t in log if t})):
            got = []
            for t in net['transitions']:
                new = [x for x in t[key] if x[0] == at[place]]
                mon.equal([x for x in t[key] if x[0] != at[place]], byid[t['id']][key], 'the arcs before are kept', **w)
                mon.check(all(x[2] == 1 for x in new), 'an added arc carries one token', **w)
                got += [t['name']] * len(new)
            mon.equal(sorted(got), sorted(e for e in ends if names_[e]), f'the {place.lower()} place is connected to the transitions of the events at that end', **w)
    if any(f is False for f in out['replay']['fired'] or []):
        return
    if net['initial'] is not None:
        for f in out['replay']['fired']:
            mon.event('marked net not replayed' if f is None else 'marked net replayed')
    p41.judge_replay(mon, net, log, out['replay'], terminate, f'{kind} with a marking', H.eps)
    p41.judge_pnml(mon, net, out['pnml'], by_name, kind)
    if any(len(t) > 1 for t in log):
        mon.distinct('marked', kind, log)


def bad_path(mon, H, rng):
    steps, initial = H.load([['a', 'b']])
    path = os.path.join(mon.scratch, 'no', 'such', 'net.pnml')
    a = sv.S.execute(steps + [('do', MINERS['alpha'], {}), ('do', 'SerializePetriNet', {'path': text(path), 'pnml_use_names_as_ids': flag(True)})], initial, client=rng)
    mon.check(a.error is not None, 'a PNML file that cannot be written is reported', final=a.final)
    mon.event('bad path')


def run_case(rng, index, mon):
    H = Pipelines(rng, mon)
    k = index % 8
    if k == 0:
        log = p37.make_log(rng, mon.tier == 'thorough')
        p37.repeats(mon, H, log, rng)
    elif k == 1:
        p37.tandem(mon, H, p37.make_log(rng, mon.tier == 'thorough'), rng)
    elif k in (2, 3):
        log = p40.make_log(rng)
        mon.event('empty log', not log)
        kind = rng.choice(['alpha', 'plus', 'plusplus', 'nfc'])
        if kind == 'nfc':
            p40.nfc(mon, H, log, rng)
            mon.distinct(kind, log)
        elif p40.judge(mon, H, log, kind):
            mon.distinct(kind, log)
    elif k == 4:
        p44.heuristic(mon, H, p40.make_log(rng) * rng.choice([1, 1, 2]), rng)
    elif k == 5:
        if rng.random() < 0.3:
            log, fixed = p44.make_weak_log(rng)
            p44.fuzzy(mon, H, log, rng, fixed)
        else:
            p44.fuzzy(mon, H, p44.plain(p40.make_log(rng)) * rng.choice([1, 1, 2]), rng)
    elif k == 6:
        p41.mined(mon, H, rng)
        if rng.random() < 0.1:
            bad_path(mon, H, rng)
    else:
        marked(mon, H, rng)

"""P01: saving a log as XES and reading it back loses nothing."""
import os
import random
from datetime import datetime, timedelta, timezone

from .. import gen, fx
from ..gen import NAME
from python.ficus.legacy.log.event_log import MyEventLog, MyTrace, MyEvent
from python.ficus.legacy.log.functions import (read_log_from_xes, save_event_log_to_xes, serialize_log_to_xes,
                                               serialize_log_to_xes_beautiful)

ID = 'P01'
LEVEL = 'exploration'
CASES = {'quick': 1200, 'thorough': 12000}
RULE = ('a random log (typed hostile payload values, trace attributes, log attributes, extensions, classifiers, '
        'properties, typed global defaults, some equal-looking to event values) is saved with the real writer and read '
        'back with the real reader, 1-2 generations; non-trivial: at least one event and one non-name attribute')
ASSUMPTIONS = ['text values hold only characters XML 1.0 can carry', 'classifier keys are non-empty and without blanks',
               'global defaults use the scopes "trace" and "event"']
REQUIRED_EVENTS = ['value compared', 'value:bool', 'value:float', 'value:datetime', 'value:int', 'default filled in',
                   'properties compared', 'globals compared', 'written:bare name', 'written:new directory',
                   'written:overwrite', 'beautiful parsed', 'pipeline round trip', 'second generation',
                   'explicit equals default', 'unsupported value skipped']


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    return a == b


def some_map(rng, n, keys):
    return {k: gen.value(rng) for k in rng.sample(keys, min(n, len(keys)))}


LOOKALIKES = [[1, True, 1.0, '1', 'True'], [0, False, 0.0, '0', 'False'], ['', 'None', 'x'], ['1.5', 1.5]]


def build(rng):
    names = gen.names_log(rng, max_traces=5, max_len=6)
    pl = gen.payload_log(rng, names)
    log = fx.log_of_payloads(pl)
    ekeys = [k for k in gen.KEYS] + [gen.LIFE]
    if rng.random() < 0.7:
        log.attributes = {k: v for k, v in [('xes.version', '1.0'), ('xes.features', 'nested-attributes'),
                                            ('openxes.version', '1.0RC7'), ('creator', 'a "b" <c> & d'),
                                            ('note', 'юникод')] if rng.random() < 0.6}
    for n, p, u in [('Concept', 'concept', 'http://www.xes-standard.org/concept.xesext'),
                    ('Time', 'time', 'http://www.xes-standard.org/time.xesext'), ('My "ext"', 'm<y', 'urn:a&b'),
                    ('Org', 'org', '')]:
        if rng.random() < 0.4:
            log.extensions[n] = {'prefix': p, 'uri': u}
    if log.extensions and rng.random() < 0.3:
        # a second extension that shares its prefix, its address or both with an earlier one
        o = rng.choice(list(log.extensions.values()))
        log.extensions[rng.choice(['Second', 'concept', 'TIME'])] = {'prefix': rng.choice([o['prefix'], 'other']), 'uri': rng.choice([o['uri'], 'urn:2'])}
    for n, k in [('Event Name', ['concept:name']), ('MXML', ['concept:name', 'lifecycle:transition']),
                 ('<odd>', ['a', 'ключ', "q'"])]:
        if rng.random() < 0.4:
            log.classifiers[n] = list(k)
    if log.classifiers and rng.random() < 0.3:
        log.classifiers['twin'] = list(rng.choice(list(log.classifiers.values())))
    if rng.random() < 0.6:
        log.properties = some_map(rng, rng.randint(1, 4), gen.KEYS + ['concept:name', 'description'])
    if rng.random() < 0.7:
        for scope in ('trace', 'event'):
            if rng.random() < 0.7:
                g = some_map(rng, rng.randint(0, 3), ekeys)
                if rng.random() < 0.15:
                    g[NAME] = rng.choice(['UNKNOWN', '', 'a'])
                if rng.random() < 0.4:
                    g['look'] = rng.choice(rng.choice(LOOKALIKES))
                log.global_values[scope] = g
    ge, gt = log.global_values.get('event', {}), log.global_values.get('trace', {})
    equal_default = unsupported = 0
    for t in log:
        if rng.random() < 0.6:
            t.attributes = some_map(rng, rng.randint(1, 3), gen.KEYS + [NAME])
        for m, g in [(t.attributes, gt)] + [(e.payload, ge) for e in t]:
            for k, v in g.items():
                r = rng.random()
                if r < 0.25:
                    m[k] = v
                    equal_default += 1
                elif r < 0.35:
                    for fam in LOOKALIKES:
                        if v in fam:
                            m[k] = rng.choice(fam)
            if rng.random() < 0.1:
                m['unsupported'] = rng.choice([None, [1], {'a': 1}, (1,), b'x', 1 + 2j])
                unsupported += 1
            if rng.random() < 0.1:
                m['extreme'] = rng.choice([float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308, -0.0, 10 ** 30,
                                           datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999),
                                           '\u0085x\u2028y', ' ' * 3, '\ud7ff\ue000', '&#10;', ']]>', '<!--', '\t\n\r'])
    return log, equal_default, unsupported


SUPPORTED = (str, datetime, int, float, bool)


def supported(m):
    return {k: v for k, v in m.items() if type(v) in SUPPORTED}


def cmp_map(mon, where, got, want):
    mon.check(set(got) == set(want), f'{where}: set of keys changed by the round trip', got=got, expected=want)
    for k in want:
        mon.event('value compared')
        mon.event('value:' + type(want[k]).__name__)
        mon.check(same(got[k], want[k]), f'{where}: value of {k!r} changed by the round trip', got=got[k],
                  expected=want[k])


def compare(mon, got, want_log, stage):
    w = want_log
    mon.equal(dict(got.attributes), dict(w.attributes), f'{stage}: log attributes changed')
    mon.equal(dict(got.extensions), dict(w.extensions), f'{stage}: extensions changed')
    mon.equal(dict(got.classifiers), dict(w.classifiers), f'{stage}: classifiers changed')
    mon.event('properties compared')
    cmp_map(mon, f'{stage}: log properties', got.properties, w.properties)
    mon.event('globals compared')
    mon.equal(sorted(got.global_values), sorted(w.global_values), f'{stage}: global scopes changed')
    for s in w.global_values:
        cmp_map(mon, f'{stage}: global values of {s}', got.global_values[s], w.global_values[s])
    mon.equal(len(got), len(w), f'{stage}: number of traces changed')
    ge, gt = w.global_values.get('event', {}), w.global_values.get('trace', {})
    for i, (tg, tw) in enumerate(zip(got, w)):
        cmp_map(mon, f'{stage}: attributes of trace {i}', tg.attributes, {**gt, **supported(tw.attributes)})
        mon.equal(len(tg), len(tw), f'{stage}: number of events of trace {i} changed')
        for j, (eg, ew) in enumerate(zip(tg, tw)):
            exp = {**ge, **supported(ew.payload)}
            if set(ge) - set(ew.payload):
                mon.event('default filled in')
            cmp_map(mon, f'{stage}: event {j} of trace {i}', eg.payload, exp)


def run_case(rng, index, mon):
    log, eqd, uns = build(rng)
    before = fx.snapshot(log)
    if eqd:
        mon.event('explicit equals default', eqd)
    if uns:
        mon.event('unsupported value skipped', uns)
    how = rng.choice(['bare', 'newdir', 'overwrite', 'plain', 'unicode'])
    d = os.path.join(mon.scratch, f'case{index}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if how == 'bare':
        path = 'log.xes'
        mon.event('written:bare name')
    elif how == 'newdir':
        path = os.path.join(d, 'x', 'y z', 'log.xes')
        mon.event('written:new directory')
    elif how == 'unicode':
        path = os.path.join(d, 'журнал №1.xes')
    else:
        path = os.path.join(d, 'log.xes')
    if how == 'overwrite':
        with open(path, 'w') as f:
            f.write('<log>' + 'stale content ' * 5000)
        mon.event('written:overwrite')
    mon.call(save_event_log_to_xes, log, path)
    mon.equal(fx.snapshot(log), before, 'saving changed the log')
    got = mon.call(read_log_from_xes, path)
    compare(mon, got, log, 'saved file')
    if rng.random() < 0.4:
        p2 = os.path.join(d, 'second.xes')
        mon.call(save_event_log_to_xes, got, p2)
        again = mon.call(read_log_from_xes, p2)
        compare(mon, again, got, 'second generation')
        mon.event('second generation')
    if rng.random() < 0.4:
        for fn in (serialize_log_to_xes, serialize_log_to_xes_beautiful):
            text = mon.call(fn, log)
            p3 = os.path.join(d, 'text.xes')
            with open(p3, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            compare(mon, mon.call(read_log_from_xes, p3), log, fn.__name__)
        mon.event('beautiful parsed')
    if rng.random() < 0.4:
        from python.ficus.legacy.pipelines.pipelines import Pipeline
        from python.ficus.legacy.pipelines.start.start_parts import ReadLogFromXes, UseExistingLog
        from python.ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
        from python.ficus.legacy.pipelines.contexts.accessors import log as get_log
        p4 = os.path.join(d, 'sub', 'p.xes')
        seen = []

        def where(ctx):
            seen.append(get_log(ctx) is log)
            return p4
        res = mon.call(Pipeline(UseExistingLog(), SaveEventLogToXes(where)), log, what='save pipeline')
        mon.check(get_log(res) is log and seen == [True], 'the saving part must pass its log on unchanged')
        res = mon.call(Pipeline(ReadLogFromXes()), p4, what='read pipeline')
        compare(mon, get_log(res), log, 'pipeline')
        mon.event('pipeline round trip')
    if len(log) and any(len(t) for t in log):
        mon.distinct(before)
        mon.sample(f'{len(log)} traces, globals {log.global_values}, first trace {[e.payload for e in log[0]]}')
    else:
        mon.event('empty log or traces')
    import shutil
    os.chdir(mon.scratch)
    shutil.rmtree(d, ignore_errors=True)

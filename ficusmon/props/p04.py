"""P04: conversion to and from pm4py logs keeps every event and shares nothing."""
import copy

from .. import gen, fx
from ..gen import NAME
from pm4py.objects.log.obj import EventLog, Event, Trace
from python.ficus.legacy.log.pm4py_converters import from_pm4py_log, to_pm4py_log
from python.ficus.legacy.log.event_log import MyEvent, MyTrace

ID = 'P04'
LEVEL = 'exploration'
CASES = {'quick': 2000, 'thorough': 20000}
RULE = ('random logs are converted both ways and compared value by value (types included), then one side is mutated; '
        'non-trivial: at least one event')
ASSUMPTIONS = ['converting to pm4py carries events; log and trace attributes are carried in the other direction only']
REQUIRED_EVENTS = ['to pm4py', 'from pm4py', 'round trip', 'value compared', 'independence checked', 'metadata compared']


def same(mon, got, want, where):
    mon.check(list(got) == list(want), f'{where}: keys differ', got=dict(got), expected=dict(want))
    for k in want:
        mon.event('value compared')
        mon.check(type(got[k]) is type(want[k]) and got[k] == want[k], f'{where}: value of {k!r} differs', got=got[k], expected=want[k])


def poke(v):
    if isinstance(v, list):
        for x in v:
            poke(x)
        v.append(7)
    elif isinstance(v, dict):
        for x in v.values():
            poke(x)
        v['q'] = 1
    elif isinstance(v, set):
        v.add(99)
    elif isinstance(v, tuple):
        for x in v:
            poke(x)


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=6, max_len=7)
    pl = gen.payload_log(rng, names)
    for t in pl:
        for p in t:
            if rng.random() < 0.15:
                p[rng.choice(['falsy', 'x y'])] = rng.choice([None, '', 0, False, [], {}, ()])
                p['nested'] = rng.choice([[1, 2], {'a': [1]}, {'a': {'b': [1, {2}]}}, [[1], {'c': []}], ([1], 2), {3, 4}])
    log = fx.log_of_payloads(copy.deepcopy(pl))
    before = fx.snapshot(log)
    pm = mon.call(to_pm4py_log, log)
    mon.event('to pm4py')
    mon.equal(fx.snapshot(log), before, 'converting to pm4py changed the log')
    mon.check(isinstance(pm, EventLog), 'the result is not a pm4py log')
    mon.equal(len(pm), len(pl), 'number of traces changed by the conversion to pm4py')
    for i, (t, w) in enumerate(zip(pm, pl)):
        mon.equal(len(t), len(w), f'number of events of trace {i} changed by the conversion to pm4py')
        for e, p in zip(t, w):
            mon.check(isinstance(e, Event), 'not a pm4py event')
            same(mon, {k: e[k] for k in e}, p, 'to pm4py')
    back = mon.call(from_pm4py_log, pm)
    mon.event('round trip')
    mon.equal(fx.payloads(back), pl, 'events changed by a round trip through pm4py')
    for t, w in zip(back, pl):
        for e, p in zip(t, w):
            same(mon, e.payload, p, 'round trip')
    mon.equal(fx.shared(pm, log), [], 'the pm4py log shares mutable data with the log it was made from')
    mon.equal(fx.shared(pm, back), [], 'the log made from a pm4py log shares mutable data with it')
    # mutate the pm4py side and the round-tripped side
    for t in pm:
        for e in t:
            if 'nested' in e:
                poke(e['nested'])
            e[NAME] = 'changed'
        t.append(Event({NAME: 'extra'}))
    pm.append(Trace())
    mon.event('independence checked')
    mon.equal(fx.snapshot(log), before, 'changing the pm4py log changed the original log')
    mon.equal(fx.payloads(back), pl, 'changing the pm4py log changed the log made from it')

    # pm4py -> ficus with metadata
    src = EventLog()
    for t in pl:
        tr = Trace(attributes={k: gen.value(rng) for k in rng.sample(gen.KEYS, rng.randint(0, 2))})
        for p in t:
            tr.append(Event(copy.deepcopy(p)))
        src.append(tr)
    src._attributes.update({k: gen.value(rng) for k in rng.sample(gen.KEYS, rng.randint(0, 3))})
    src._properties.update({k: gen.value(rng) for k in rng.sample(gen.KEYS, rng.randint(0, 3))})
    src._classifiers.update({'C': ['a', 'b']} if rng.random() < 0.5 else {})
    src._extensions.update({'E': {'prefix': 'e', 'uri': 'u'}} if rng.random() < 0.5 else {})
    src._omni.update({'event': {'x': 1}} if rng.random() < 0.5 else {})
    want = copy.deepcopy((src.attributes, src.properties, src.classifiers, src.extensions, src.omni_present,
                          [t.attributes for t in src]))
    got = mon.call(from_pm4py_log, src)
    mon.event('from pm4py')
    mon.event('metadata compared')
    mon.equal((got.attributes, got.properties, got.classifiers, got.extensions, got.global_values,
               [t.attributes for t in got]), want, 'metadata changed by the conversion from pm4py')
    mon.equal(fx.payloads(got), pl, 'events changed by the conversion from pm4py')
    mon.equal(fx.shared(src, got), [], 'the log made from a pm4py log with metadata shares mutable data with it')
    for t in got:
        t.attributes['added'] = 1
        t.append(MyEvent({NAME: 'x'}))
        for e in t:
            e['added'] = 1
            poke(e.payload.get('nested'))
    got.attributes['added'] = 1
    got.classifiers.setdefault('C', []).append('z')
    got.global_values.setdefault('event', {})['y'] = 2
    mon.equal(([[dict(e._dict) for e in t] for t in src], [t.attributes for t in src], src.attributes, src.classifiers,
               src.omni_present), (pl, want[5], want[0], want[2], want[4]), 'changing the converted log changed the pm4py log')
    if any(names):
        mon.distinct(before)
        mon.sample(names)

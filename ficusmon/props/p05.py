"""P05: the text notation of logs: parse/serialize are inverse and exact."""
from .. import gen, fx
from ..gen import NAME
from python.ficus.legacy.log.functions import (parse_log_from_strings, parse_log_from_string, parse_trace_from_string,
                                               serialize_log, serialize_logs)

ID = 'P05'
LEVEL = 'exploration'
CASES = {'quick': 4000, 'thorough': 40000}
RULE = ('random name logs and separators (single and multi character); text written by an independent writer is parsed, '
        'parsed logs are serialised, compared with the expected text; non-trivial: some event')
ASSUMPTIONS = ['event names do not contain the separators in use (for the inverse direction)']
REQUIRED_EVENTS = ['parsed', 'serialized', 'serialized many', 'inverse', 'multi-char separator', 'single string']

SEPS = [',', ';', ' ', '->', '::', '\t', '|', '\n', ', ', '--', '.']


def run_case(rng, index, mon):
    names = gen.names_log(rng, max_traces=6, max_len=8, allow_empty_traces=False)
    sep = rng.choice(SEPS)
    default = rng.random() < 0.3
    if default:
        sep = ','
    tsep = rng.choice([s for s in SEPS + ['\n', '\n'] if s not in sep and sep not in s])
    if len(sep) > 1:
        mon.event('multi-char separator')
    clean = [[n.replace(sep, '_').replace(tsep, '_') for n in t] for t in names]
    if any(sep in n or tsep in n for t in clean for n in t):
        clean = [['x%d' % len(n) for n in t] for t in names]
    strings = [sep.join(t) for t in clean]
    log = mon.call(parse_log_from_strings, strings) if default else mon.call(parse_log_from_strings, strings, separator=sep)
    mon.event('parsed')
    mon.equal(fx.payloads(log), [[{NAME: n} for n in t] for t in clean], 'parsed events differ from the text', text=strings)
    for t in clean[:2]:
        tr = mon.call(parse_trace_from_string, sep.join(t), separator=sep)
        mon.equal([e.payload for e in tr], [{NAME: n} for n in t], 'parsed trace differs from the text')
        one = mon.call(parse_log_from_string, sep.join(t), separator=sep)
        mon.event('single string')
        mon.equal(fx.names(one), [t], 'parsed single trace log differs from the text')
    # serialization of logs with arbitrary names, empty traces included
    names2 = gen.names_log(rng, max_traces=6, max_len=8)
    log2 = fx.log_of_payloads(gen.payload_log(rng, names2))
    snap = fx.snapshot(log2)
    text = mon.call(serialize_log, log2) if default else mon.call(serialize_log, log2, traces_separator=tsep, events_separator=sep)
    es, ts = (',', '\n') if default else (sep, tsep)
    mon.event('serialized')
    mon.equal(text, ts.join(es.join(t) for t in names2), 'the serialised text does not list the events of the log')
    mon.equal(fx.snapshot(log2), snap, 'serialising changed the log')
    text = mon.call(serialize_log, log, traces_separator=tsep, events_separator=sep)
    if clean:
        back = mon.call(parse_log_from_strings, text.split(tsep), separator=sep)
        mon.event('inverse')
        mon.equal(fx.names(back), clean, 'serialise + parse is not the identity')
    logs = [gen.names_log(rng, max_traces=3, max_len=4) for _ in range(rng.randint(0, 4))]
    lsep = rng.choice(['\n\n', '==', ' / '])
    many = mon.call(serialize_logs, [fx.log_of_names(l) for l in logs], logs_separator=lsep, traces_separator=tsep, events_separator=sep)
    mon.event('serialized many')
    mon.equal(many, lsep.join(tsep.join(sep.join(t) for t in l) for l in logs), 'the serialised logs are not listed in order')
    many = mon.call(serialize_logs, [fx.log_of_names(l) for l in logs])
    mon.equal(many, '\n\n'.join('\n'.join(','.join(t) for t in l) for l in logs), 'the serialised logs are not listed in order')
    if any(clean):
        mon.distinct(clean, sep, tsep)
        mon.sample((text, sep, tsep))

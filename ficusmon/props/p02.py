"""P02: reading any well-formed XES document yields exactly the document's content."""
import os
from datetime import datetime, timedelta, timezone
from xml.sax.saxutils import escape, quoteattr

from .. import gen, fx
from python.ficus.legacy.log.functions import read_log_from_xes
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.pipelines.start.start_parts import ReadLogFromXes
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log

ID = 'P02'
LEVEL = 'exploration'
CASES = {'quick': 1500, 'thorough': 15000}
RULE = ('an independent writer emits random well-formed XES documents (default and prefixed namespaces, UTF-8/UTF-16/'
        'latin-1, comments, CDATA, nested attributes, unknown elements, globals before/after/split, all value types in '
        'several lexical forms) together with the expected content; the real reader is run and compared; non-trivial: the '
        'document has an event')
ASSUMPTIONS = ['attribute keys are unique within one element', 'dates use ISO 8601 forms']
REQUIRED_EVENTS = ['value compared', 'lexical:boolean', 'lexical:date', 'lexical:int', 'lexical:float', 'lexical:string',
                   'namespace:default', 'namespace:prefix', 'namespace:none', 'nested attribute ignored',
                   'unknown element ignored', 'default inherited', 'default overridden', 'global after traces',
                   'split global scope', 'encoding:utf-16', 'encoding:utf-8', 'encoding:iso-8859-1', 'missing file',
                   'attribute after events']


def attr(s):
    q = quoteattr(s, {'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'})
    return q


def date_forms(rng, d):
    """(text, expected)"""
    base = d.strftime('%Y-%m-%dT%H:%M:%S')
    ms = rng.choice([None, 0, 120, 999])
    if ms is not None:
        base += '.%03d' % ms
        d = d.replace(microsecond=ms * 1000)
    k = rng.randrange(4)
    if k == 0:
        return base + 'Z', d.replace(tzinfo=timezone.utc)
    if k == 1:
        off = rng.choice([60, -300, 330, 0])
        sign = '+' if off >= 0 else '-'
        return base + '%s%02d:%02d' % (sign, abs(off) // 60, abs(off) % 60), d.replace(
            tzinfo=timezone(timedelta(minutes=off)))
    if k == 2:
        return base.replace('T', ' '), d
    return base, d


STRINGS = ['', 'plain', 'true', '12', 'a "q" \'r\'', '<b> & </b>', 'x\ny', '  spaces  ', 'naïve', 'tab\t', ']]>', 'a}b', '{x}',
           'ÿþ']


def lexical(rng):
    """(tag, text, expected value)"""
    k = rng.randrange(5)
    if k == 0:
        s = rng.choice(STRINGS)
        return 'string', s, s
    if k == 1:
        return rng.choice([('boolean', 'true', True), ('boolean', 'false', False), ('boolean', '1', True),
                           ('boolean', '0', False), ('boolean', 'True', True), ('boolean', 'False', False),
                           ('boolean', 'FALSE', False)])
    if k == 2:
        v = rng.choice([0, 1, -1, 42, -77, 10 ** 15, 2 ** 63 - 1, -2 ** 63])
        text = str(v)
        if rng.random() < 0.2 and v >= 0:
            text = rng.choice(['+', '0', '00']) + text
        return 'int', text, v
    if k == 3:
        return rng.choice([('float', '1.5', 1.5), ('float', '-0.25', -0.25), ('float', '3', 3.0), ('float', '1e3', 1000.0),
                           ('float', '1E-7', 1e-7), ('float', '.5', 0.5), ('float', 'INF', float('inf')),
                           ('float', '0.1', 0.1), ('float', '100.0', 100.0), ('float', '-1.7976931348623157E308',
                                                                              -1.7976931348623157e308)])
    t, d = date_forms(rng, datetime(rng.choice([1970, 2000, 2019, 2024]), rng.randint(1, 12), rng.randint(13, 28),
                                    rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))
    return 'date', t, d


LATIN_KEYS = ['concept:name', 'org:resource', 'cost', 'k 1', 'é', 'time:timestamp', 'lifecycle:transition', 'value', 'key']


class Doc:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.ns = rng.choice(['none', 'default', 'prefix'])
        self.pre = 'x:' if self.ns == 'prefix' else ''
        mon.event('namespace:' + self.ns)
        self.parts = []

    def ws(self):
        r = self.rng.random()
        if r < 0.6:
            return ''
        if r < 0.85:
            return self.rng.choice(['\n', '  ', '\r\n\t'])
        if r < 0.95:
            return '<!-- <event><string key="ghost" value="g"/></event> -->'
        return '<?pi some data?>'

    def tag(self, name, attrs, body=''):
        a = [f'{k}={attr(v)}' for k, v in attrs]
        if self.rng.random() < 0.3:
            self.rng.shuffle(a)
        a = ''.join(' ' + x for x in a)
        if not body and self.rng.random() < 0.7:
            return f'<{self.pre}{name}{a}/>' + self.ws()
        return f'<{self.pre}{name}{a}>{self.ws()}{body}</{self.pre}{name}>' + self.ws()

    def value(self, key, lex):
        body = ''
        if self.rng.random() < 0.12:
            t, s, _ = lexical(self.rng)
            body = self.tag(t, [('key', self.rng.choice(LATIN_KEYS)), ('value', s)])
            self.mon.event('nested attribute ignored')
        self.mon.event('lexical:' + lex[0])
        return self.tag(lex[0], [('key', key), ('value', lex[1])], body)

    def unknown(self):
        self.mon.event('unknown element ignored')
        return self.rng.choice([self.tag('list', [('key', 'L')], self.tag('values', [], self.tag(
            'string', [('key', 'concept:name'), ('value', 'ghost')]))),
            self.tag('id', [('key', 'concept:name'), ('value', '123')]),
            self.tag('container', [('key', 'c')], self.tag('int', [('key', 'cost'), ('value', '9')]))])

    def attrs(self, maxn):
        keys = self.rng.sample(LATIN_KEYS, self.rng.randint(0, maxn))
        lex = [(k, lexical(self.rng)) for k in keys]
        xml = [self.value(k, l) for k, l in lex]
        if self.rng.random() < 0.15:
            xml.insert(self.rng.randint(0, len(xml)), self.unknown())
        return {k: l[2] for k, l in lex}, xml


def build(rng, mon):
    d = Doc(rng, mon)
    exp = {'globals': {}, 'traces': [], 'ext': {}, 'cls': {}, 'attrs': {}}
    head, tail = [], []
    for i in range(rng.randint(0, 3)):
        n, p, u = f'Ext {i}', f'e{i}', f'http://x/{i}?a=b&c'
        exp['ext'][n] = {'prefix': p, 'uri': u}
        head.append(d.tag('extension', [('name', n), ('prefix', p), ('uri', u)]))
    for i in range(rng.randint(0, 2)):
        keys = rng.sample(['concept:name', 'lifecycle:transition', 'org:resource', 'a'], rng.randint(1, 3))
        exp['cls'][f'Cls "{i}"'] = keys
        head.append(d.tag('classifier', [('name', f'Cls "{i}"'), ('keys', ' '.join(keys))]))
    for scope in ('trace', 'event'):
        if rng.random() < 0.55:
            g, lexes = {}, [(k, lexical(rng)) for k in rng.sample(LATIN_KEYS, rng.randint(0, 3))]
            exp['globals'][scope] = {k: l[2] for k, l in lexes}
            cut = rng.randint(0, len(lexes)) if rng.random() < 0.2 else len(lexes)
            groups = [lexes[:cut], lexes[cut:]] if cut < len(lexes) else [lexes]
            if len(groups) > 1:
                mon.event('split global scope')
            for grp in groups:
                x = d.tag('global', [('scope', scope)], ''.join(d.value(k, l) for k, l in grp))
                if rng.random() < 0.2:
                    tail.append(x)
                    mon.event('global after traces')
                else:
                    head.append(x)
    exp['props'], pxml = d.attrs(3)
    (head if rng.random() < 0.8 else tail).extend(pxml)
    rng.shuffle(head)
    traces = []
    for _ in range(rng.randint(0, 4)):
        ta, txml = d.attrs(3)
        events, exml = [], []
        for _ in range(rng.randint(0, 5)):
            ea, x = d.attrs(4)
            events.append(ea)
            exml.append(d.tag('event', [], ''.join(x)))
        body = txml + exml
        if txml and exml and rng.random() < 0.25:
            body = exml + txml
            mon.event('attribute after events')
        traces.append(d.tag('trace', [], ''.join(body)))
        exp['traces'].append((ta, events))
    attrs = []
    for k, v in [('xes.version', '1.0'), ('xes.features', ''), ('openxes.version', '1.0RC7 "x"')]:
        if rng.random() < 0.5:
            attrs.append((k, v))
            exp['attrs'][k] = v
    ns = {'none': '', 'default': ' xmlns="http://www.xes-standard.org/"', 'prefix': ' xmlns:x="http://www.xes-standard.org/"'}
    a = ''.join(f' {k}={attr(v)}' for k, v in attrs)
    enc = rng.choices(['utf-8', 'utf-16', 'iso-8859-1', None], weights=[5, 2, 2, 2])[0]
    text = (f'<?xml version="1.0" encoding="{enc}"?>\n' if enc else '') + '<!-- log -->' * (rng.random() < 0.3)
    text += f'<{d.pre}log{ns[d.ns]}{a}>' + d.ws() + ''.join(head) + ''.join(traces) + ''.join(tail) + f'</{d.pre}log>\n'
    mon.event('encoding:' + (enc or 'utf-8'))
    return text.encode(enc or 'utf-8'), exp


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    return a == b


def cmp(mon, where, got, want):
    mon.check(set(got) == set(want), f'{where}: keys differ from the document', got=got, expected=want)
    for k in want:
        mon.event('value compared')
        mon.check(same(got[k], want[k]), f'{where}: value of {k!r} differs from the document', got=got[k], expected=want[k])


def run_case(rng, index, mon):
    data, exp = build(rng, mon)
    path = os.path.join(mon.scratch, f'd{index}.xes')
    with open(path, 'wb') as f:
        f.write(data)
    if rng.random() < 0.3:
        log = get_log(mon.call(Pipeline(ReadLogFromXes()), path, what='read pipeline'))
    else:
        log = mon.call(read_log_from_xes, path)
    os.remove(path)
    w = {'document': data}
    mon.equal(dict(log.attributes), exp['attrs'], 'log attributes differ from the document', **w)
    mon.equal(dict(log.extensions), exp['ext'], 'extensions differ from the document', **w)
    mon.equal(dict(log.classifiers), exp['cls'], 'classifiers differ from the document', **w)
    cmp(mon, 'log properties', log.properties, exp['props'])
    mon.equal(sorted(log.global_values), sorted(exp['globals']), 'global scopes differ from the document', **w)
    for s in exp['globals']:
        cmp(mon, f'global {s}', log.global_values[s], exp['globals'][s])
    mon.equal(len(log), len(exp['traces']), 'number of traces differs from the document', **w)
    gt, ge = exp['globals'].get('trace', {}), exp['globals'].get('event', {})
    for i, (t, (ta, evs)) in enumerate(zip(log, exp['traces'])):
        cmp(mon, f'trace {i}', t.attributes, {**gt, **ta})
        mon.equal(len(t), len(evs), f'number of events of trace {i} differs from the document', **w)
        for j, (e, p) in enumerate(zip(t, evs)):
            if set(ge) - set(p):
                mon.event('default inherited')
            if set(ge) & set(p):
                mon.event('default overridden')
            cmp(mon, f'event {j} of trace {i}', e.payload, {**ge, **p})
    # defaults are per event: changing one event's value must not leak into another event or the defaults
    ids = [id(e.payload) for t in log for e in t]
    mon.check(len(ids) == len(set(ids)), 'events share one payload object')
    if ids:
        mon.distinct(data)
        mon.sample(data.decode('utf-8', 'replace'))
    if index % 50 == 0:
        missing = os.path.join(mon.scratch, 'no', 'such.xes')
        try:
            read_log_from_xes(missing)
            mon.check(False, 'reading a missing file did not fail')
        except FileNotFoundError:
            mon.event('missing file')
            mon.check(not os.path.exists(missing), 'reading created the missing file')
        try:
            Pipeline(ReadLogFromXes())(17)
            mon.check(False, 'a non-path was accepted')
        except TypeError:
            pass

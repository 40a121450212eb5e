"""P42: XES files read and written by the backend (Rust)."""
import datetime
import os
import uuid
import xml.etree.ElementTree as ET

from .. import rust
from ..rust import prepare, worker_start, worker_end  # noqa: F401

ID = 'P42'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('generated XES documents (extensions, classifiers, globals, properties, typed attributes, nested ones, lists, defaults, entities, both quotes, comments, unknown '
        'elements, unreadable values, events without name or time), whole and cut at any byte, random changes of events; content, written text and '
        'content read back by the real Rust code are compared with the generator; non-trivial: at least two events')
ASSUMPTIONS = ['crates that are not in the sandbox are replaced by stand-ins (XML: a pull reader and writer with the interface of quick-xml)',
               'attributes of traces, of attributes, of lists and of containers are not kept by this reader']
REQUIRED_EVENTS = ['document', 'cut', 'cut in event', 'cut in global', 'default used', 'default overridden', 'event left out', 'unreadable value',
                   'entity', 'unknown entity', 'edit:new key', 'edit:name', 'edit:old key', 'read back', 'extension', 'classifier', 'property', 'missing file',
                   'second global', 'closed by a tag of its own', 'nested attribute', 'list', 'container', 'type:id', 'type:date', 'type:float', 'type:int', 'type:boolean', 'type:string', 'empty trace']
NAME, TIME = 'concept:name', 'time:timestamp'
KINDS = ['string', 'date', 'int', 'float', 'boolean', 'id']
TEXTS = ['a', 'B c', '<x> & "y"', "it's", 'é Ω 你', '', ' padded ', 'a\nb', '&amp;', '&#65;', 'x=1', ']]>', '-->', '/>', 'UNDEFINED', '0', 'true']


def esc(rng, mon, s, quote):
    out = []
    for c in s:
        if c in '<&' or c == quote or (c in '>"\'' and rng.random() < 0.5):
            name = {'<': 'lt', '&': 'amp', '>': 'gt', '"': 'quot', "'": 'apos'}[c]
            out.append(rng.choice([f'&{name};', f'&#{ord(c)};', f'&#x{ord(c):x};']))
            mon.event('entity')
        elif rng.random() < 0.03 and c.isalnum():
            out.append(f'&#{ord(c)};')
        else:
            out.append(c)
    return ''.join(out)


def tag(rng, mon, name, attrs, raw=None, depth=0):
    attrs = list(attrs)
    rng.shuffle(attrs)
    out = '<' + name
    for k, v in attrs:
        q = rng.choice('"\'')
        out += rng.choice([' ', ' ', '\n  ', '  ']) + k + rng.choice(['=', '=', ' = ']) + q + (raw if raw is not None and k == 'value' else esc(rng, mon, v, q)) + q
    if name not in KINDS or rng.random() < 0.85:
        return out + rng.choice(['/>', '/>', ' />'])
    mon.event('closed by a tag of its own')
    return out + '>' + inside(rng, mon, depth) + f'</{name}>'


def inside(rng, mon, depth):
    """What an attribute holds: nothing, or attributes that belong to it alone."""
    if depth > 2 or rng.random() < 0.3:
        return rng.choice(['', ' ', '\n'])
    out = ''
    for _ in range(rng.randint(1, 3)):
        mon.event('nested attribute')
        kind, key = rng.choice(KINDS), rng.choice([NAME, TIME, 'org:resource', 'cost', 'a b', 'prop0'])
        out += rng.choice(['', '\n ']) + tag(rng, mon, kind, [('key', key), ('value', {'string': 'nested', 'date': '2001-02-03T04:05:06Z', 'int': '77'}.get(kind, '1'))], depth=depth + 1)
    return out


def collection(rng, mon):
    """A list or container, which the reader leaves out."""
    kind = rng.choice(['list', 'container'])
    mon.event(kind)
    body = inside(rng, mon, 0)
    return f'<{kind} key="{rng.choice(["l", "cost", NAME])}">' + (f'<values>{body}</values>' if kind == 'list' else body) + f'</{kind}>'


def moment(rng):
    ms = rng.randrange(0, 4102444800000) if rng.random() < 0.8 else rng.randrange(-2208988800000, 0)
    if rng.random() < 0.5:
        ms -= ms % 1000
    if rng.random() < 0.02:
        year = rng.choice([1, 1600, 1677, 1678, 2261, 2263, 9999])
        ms = int((datetime.datetime(year, 6, 1, 12) - datetime.datetime(1970, 1, 1)).total_seconds()) * 1000
    off = rng.choice([0, 0, 60, -300, 330, 765])
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=ms, minutes=off)
    s = d.strftime('%Y-%m-%dT%H:%M:%S').rjust(19, '0')
    frac = f'.{ms % 1000:03d}' if ms % 1000 else rng.choice(['', '.0', '.000', '.000000'])
    zone = rng.choice(['Z', '+00:00']) if off == 0 else '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return s + frac + zone, ms


def value(rng, mon):
    """kind, written, read (None: unreadable)."""
    k = rng.choice(['string', 'string', 'int', 'float', 'boolean', 'date', 'id'])
    mon.event('type:' + k)
    if k == 'string':
        v = rng.choice(TEXTS)
        return k, v, v
    if rng.random() < 0.08:
        mon.event('unreadable value')
        return k, rng.choice(['', 'abc', '1 2', 'tru', '--3']), None
    if k == 'int':
        v = rng.choice([0, 1, -1, 7, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, rng.randrange(-10 ** 6, 10 ** 6)])
        return k, str(v), v
    if k == 'float':
        v = rng.choice([0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, rng.uniform(-1e6, 1e6), 3.0])
        return k, repr(v), v
    if k == 'boolean':
        v = rng.random() < 0.5
        return k, str(v).lower(), v
    if k == 'date':
        s, ms = moment(rng)
        return k, s, ms
    u = str(uuid.UUID(int=rng.getrandbits(128)))
    return k, rng.choice([u, u.upper()]), u


def attribute(rng, mon, keys):
    key = rng.choice(keys)
    kind, text, v = value(rng, mon)
    raw = None
    if rng.random() < 0.02:
        mon.event('unknown entity')
        raw, v = '&nosuch;', None
    return tag(rng, mon, kind, [('key', key), ('value', text)], raw), key, kind, v


def noise(rng):
    return rng.choice(['', '', '\n', '\n    ', '<!-- note <event> -->', '<foo/>', '<foo bar="1"/>', '  text  ']) if rng.random() < 0.4 else '\n'




def make(rng, mon):
    """A document as chunks [text, action]; an action takes effect when its chunk is complete."""
    keys = rng.sample(['org:resource', 'cost', 'a b', '<k>', "k'", 'lifecycle:transition', 'é', 'x:y'], rng.randint(1, 5))
    chunks = [[rng.choice(['', '<?xml version="1.0" encoding="UTF-8"?>\n']) + rng.choice(['<log>', '<log xes.version="1.0" xmlns="http://www.xes-standard.org/">']), None]]
    head = []
    for i in range(rng.choice([0, 1, 2])):
        v = [f'ext{i}' + rng.choice(TEXTS), rng.choice(TEXTS), 'http://x/?a=1&b=' + rng.choice(TEXTS)]
        head.append([tag(rng, mon, 'extension', zip(('name', 'prefix', 'uri'), v)), ('extensions', v)])
        mon.event('extension')
    for i in range(rng.choice([0, 1, 2])):
        ks = [rng.choice(['concept:name', '<k>', 'a&b', 'x']) for _ in range(rng.randint(1, 3))]
        v = [rng.choice(TEXTS), ks]
        head.append([tag(rng, mon, 'classifier', [('name', v[0]), ('keys', ' '.join(ks))]), ('classifiers', v)])
        mon.event('classifier')
    for i in range(rng.choice([0, 1, 2])):
        text, _, kind, v = attribute(rng, mon, [f'prop{i}' + rng.choice(['', '<', ' "'])])
        head.append([text, ('properties', [_, [kind, v]]) if v is not None else None])
        mon.event('property')
    if rng.random() < 0.05:
        head.append([collection(rng, mon), None])
    seen = {}
    for i in range(rng.choice([0, 1, 1, 2])):
        scope = rng.choice(['event', 'event', 'trace', 'x<y'])
        body, vals = [], {}
        for _ in range(rng.randint(1, 4)):
            text, k, kind, v = attribute(rng, mon, keys)
            body.append(text)
            if v is not None:
                vals[k] = [kind, v]
        if rng.random() < 0.4:
            v = rng.choice(TEXTS)
            body.append(tag(rng, mon, 'string', [('key', NAME), ('value', v)]))
            vals[NAME] = ['string', v]
        if rng.random() < 0.4:
            s, ms = moment(rng)
            body.append(tag(rng, mon, 'date', [('key', TIME), ('value', s)]))
            vals[TIME] = ['date', ms]
        if not vals:
            continue
        if scope in seen:
            mon.event('second global')
        seen[scope] = True
        q = rng.choice('"\'')
        head.append([f'<global scope={q}{esc(rng, mon, scope, q)}{q}>' + ''.join(noise(rng) + b for b in body) + '\n</global>', ('globals', scope, vals)])
    rng.shuffle(head)
    for h in head:
        chunks += [[noise(rng), None], h]
    pool = rng.sample(TEXTS, rng.choice([2, 3, len(TEXTS)]))
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        chunks += [[noise(rng), None], ['<trace>', ('trace',)]]
        if rng.random() < 0.5:
            chunks.append([tag(rng, mon, 'string', [('key', NAME), ('value', 'case')]), None])
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
            body = []
            if rng.random() < 0.9:
                v = rng.choice(pool)
                body.append([tag(rng, mon, 'string', [('key', NAME), ('value', v)]), NAME, 'string', v])
            if rng.random() < 0.9:
                s, ms = moment(rng)
                body.append([tag(rng, mon, 'date', [('key', TIME), ('value', s)]), TIME, 'date', ms])
            for _ in range(rng.choice([0, 1, 2, 3])):
                body.append(list(attribute(rng, mon, keys)))
            if rng.random() < 0.05:
                body.append([collection(rng, mon), 'l', 'list', None])
            rng.shuffle(body)
            chunks += [[noise(rng), None], ['<event>' + ''.join(noise(rng) + b[0] for b in body) + '\n</event>', ('event', [b[1:] for b in body])]]
        chunks += [[noise(rng), None], ['</trace>', None]]
    chunks.append(['\n</log>', None])
    return chunks


def content(mon, chunks):
    out = {'extensions': [], 'classifiers': [], 'properties': [], 'globals': {}, 'traces': []}
    for _, do in chunks:
        if do is None:
            continue
        if do[0] == 'globals':
            out['globals'].setdefault(do[1], do[2])
        elif do[0] == 'trace':
            out['traces'].append([])
        elif do[0] == 'event':
            vals = dict(out['globals'].get('event', {}))
            given = {k: [kind, v] for k, kind, v in do[1] if v is not None}
            for k in vals:
                mon.event('default overridden' if k in given else 'default used')
            vals.update(given)
            if NAME in vals and TIME in vals:
                out['traces'][-1].append({'name': vals[NAME][1], 'time': vals[TIME][1], 'payload': sorted([k, v] for k, v in vals.items() if k not in (NAME, TIME))})
            else:
                mon.event('event left out')
        else:
            out[do[0]].append(do[1])
    return out


def norm(x):
    """Floats come as text."""
    if isinstance(x, list) and len(x) == 2 and x[0] == 'float':
        return ['float', float(x[1])]
    if isinstance(x, list):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def edits(rng, mon, model):
    out = []
    at = [(i, j) for i, t in enumerate(model['traces']) for j in range(len(t))]
    for _ in range(rng.choice([0, 0, 1, 3])):
        if not at:
            break
        i, j = rng.choice(at)
        e = model['traces'][i][j]
        if rng.random() < 0.3:
            e['name'] = rng.choice(TEXTS)
            out.append([i, j, '', 'name', e['name']])
            mon.event('edit:name')
            continue
        old = [k for k, _ in e['payload']]
        if old and rng.random() < 0.5:
            key = rng.choice(old)
            mon.event('edit:old key')
        else:
            key = 'new' + rng.choice(['', '<', '&'])
            mon.event('edit:new key')
        kind, v = rng.choice([('string', rng.choice(TEXTS)), ('int', rng.randrange(-9, 9)), ('int32', -5), ('uint32', 7), ('float', 2.5), ('boolean', True)])
        out.append([i, j, key, kind, v])
        e['payload'] = sorted([x for x in e['payload'] if x[0] != key] + [[key, ['int' if 'int' in kind else kind, v]]])
    return out


def judge_text(mon, text, model):
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        mon.check(False, 'the text written is not XML', text=text, error=str(e))
    mon.equal(root.tag, 'log', 'the root of the text written')
    mon.equal([[{a.get('key') for a in e} for e in t.iter('event')] for t in root.iter('trace')],
              [[{NAME, TIME} | {k for k, _ in e['payload']} for e in t] for t in model['traces'] if t], 'the attributes written', text=text)


def run_case(rng, index, mon):
    H = rust.H
    chunks = make(rng, mon)
    text = ''.join(c[0] for c in chunks)
    mon.event('document')
    path, out = os.path.join(mon.scratch, 'in.xes'), os.path.join(mon.scratch, 'out.xes')
    if index % 50 == 0:
        mon.event('missing file')
        mon.equal(H.ask('xes', path=os.path.join(mon.scratch, 'none', 'x.xes'), edits=[], out=out), None, 'a missing file gives no log')
    if index % 3 == 0:
        at = rng.randrange(len(text) + 1)
        kept, pos = [], 0
        for c in chunks:
            if pos + len(c[0]) > at:
                mon.event('cut')
                if c[1] and c[1][0] in ('event', 'globals'):
                    mon.event('cut in event' if c[1][0] == 'event' else 'cut in global')
                break
            kept.append(c)
            pos += len(c[0])
        chunks, text = kept, text[:at]
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    model = content(mon, chunks)
    for f in (out,):
        if os.path.exists(f):
            os.remove(f)
    import copy
    edited = copy.deepcopy(model)
    ed = edits(rng, mon, edited)
    got = H.ask('xes', path=path, edits=ed, out=out)
    mon.check(got is not None, 'the document is not read', text=text)
    got = norm(got)
    for key in ('extensions', 'classifiers', 'properties', 'globals', 'traces'):
        mon.equal(got['first'][key], model[key], f'{key} read from the document', text=text)
        mon.equal(got['edited'][key], edited[key], f'{key} after changing events', text=text, edits=ed)
        mon.equal(got['cloned'][key], edited[key], f'{key} of a copy', text=text, edits=ed)
    mon.event('empty trace', sum(not t for t in model['traces']))
    judge_text(mon, got['text'], edited)
    with open(out, encoding='utf-8', newline='') as f:
        mon.equal(f.read(), got['text'], 'the file holds the text written')
    again = got['again']
    mon.check(again is not None, 'the written file is not read', text=got['text'])
    mon.event('read back')
    edited['traces'] = [t for t in edited['traces'] if t]
    edited['properties'].sort(key=lambda x: x[0])
    for key in ('extensions', 'classifiers', 'properties', 'globals', 'traces'):
        mon.equal(again[key], edited[key], f'{key} after writing and reading back', text=got['text'])
    if sum(map(len, model['traces'])) > 1:
        mon.distinct(text)
        mon.sample({'text': text[:1500]})

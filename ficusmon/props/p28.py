"""P28: canvas diagrams show exactly the coloured log."""
import os

from .. import gen
from python.ficus.legacy.analysis.event_log_analysis import Color, ColoredRectangle
from python.ficus.legacy.analysis.event_log_analysis_canvas import draw_colors_event_log_canvas
import ipycanvas
from ipycanvas import Canvas

ID = 'P28'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 25000}
RULE = ('random coloured logs, scales, titles and legends; every drawing operation of the canvas is recorded with the style in effect and '
        'compared with the log; the arrival of the image data is simulated for saved diagrams; non-trivial: two rows')
ASSUMPTIONS = ['at least one trace', 'a name is drawn in one colour']
REQUIRED_EVENTS = ['cell', 'legend entry', 'title', 'no title', 'shown', 'saved', 'image arrived twice', 'empty row', 'fractional scale']


class Rec:
    def __init__(self):
        self.ops = []
        self.canvas = []


REC = None


def install():
    if getattr(Canvas, '_ficusmon', False):
        return
    Canvas._ficusmon = True
    init = Canvas.__init__

    def cinit(self, *a, **k):
        init(self, *a, **k)
        if REC is not None:
            REC.canvas.append(self)

    def wrap(name):
        old = getattr(Canvas, name)

        def f(self, *a, **k):
            if REC is not None:
                REC.ops.append((name, self.fill_style if 'fill' in name else self.stroke_style, a, dict(k)))
            return old(self, *a, **k)
        setattr(Canvas, name, f)
    Canvas.__init__ = cinit
    for n in ('fill_rect', 'fill_text', 'stroke_line', 'fill_rects', 'stroke_rect', 'clear_rect', 'clear'):
        if hasattr(Canvas, n):
            wrap(n)


def flat(ops):
    for name, style, a, k in ops:
        if name == 'fill_rect':
            a = list(a) + [k.get(x) for x in ('x', 'y', 'width', 'height')[len(a):]]
            if a[3] is None:
                a[3] = a[2]
            yield ('rect', style, tuple(a))
        elif name == 'fill_rects':
            xs, ys, ws, hs = (list(a) + [None] * 4)[:4]
            n = max(len(v) for v in (xs, ys, ws, hs) if hasattr(v, '__len__'))
            at = lambda v, i: v[i] if hasattr(v, '__len__') else v
            for i in range(n):
                yield ('rect', style, tuple(float(at(v, i)) for v in (xs, ys, ws, hs if hs is not None else ws)))
        elif name == 'fill_text':
            yield ('text', style, (a[0], a[1], a[2]))
        else:
            yield (name, style, a)


def near(a, b):
    return abs(a - b) < 1e-6


def run_case(rng, index, mon):
    global REC
    install()
    pool = [(n, Color(*rng.choice([(255, 255, 255), (0, 0, 0), (255, 0, 0), (1, 2, 3)])) if rng.random() < 0.15 else
             Color(rng.randrange(256), rng.randrange(256), rng.randrange(256))) for n in gen.alphabet(rng, k=rng.choice([1, 2, 5, 8]))]
    rows = [[ColoredRectangle(c, i, rng.choice([1, 1, 2, 7]), n) for i, (n, c) in enumerate(rng.choices(pool, k=rng.randint(0, 6)))] for _ in range(rng.randint(1, 6))]
    if not all(rows):
        mon.event('empty row')
    title = rng.choice([None, 'Title'])
    mon.event('title' if title else 'no title')
    leg = rng.random() < 0.5
    ws, hs = rng.choice([1, 2, 5, 0.5]), rng.choice([1, 3, 10, 0.5])
    if 0.5 in (ws, hs):
        mon.event('fractional scale')
    path = os.path.join(mon.scratch, f'c{index}.png') if rng.random() < 0.3 else None
    REC = rec = Rec()
    mon.out.seek(0)
    mon.out.truncate()
    try:
        mon.call(draw_colors_event_log_canvas, rows, title, leg, ws, hs, path)
    finally:
        REC = None
    w = dict(rows=rows, scales=(ws, hs), legend=leg)
    mon.equal(len(rec.canvas), 1, 'not exactly one canvas was made')
    cv = rec.canvas[0]
    W, H = cv.width, cv.height
    shown = 'Canvas' in mon.out.getvalue()
    if path is None:
        mon.event('shown')
        mon.check(shown, 'the canvas was not shown')
    else:
        mon.event('saved')
        mon.check(not shown, 'a canvas that is saved was also shown')
        mon.check(cv.sync_image_data, 'the image data of a canvas that is to be saved is not requested')
        mon.check(not os.path.exists(path), 'a file was written before the image data arrived')
        data = [bytes([1, 2, index % 250]), b'second image']
        for k, b in enumerate(data[:rng.choice([1, 2])]):
            cv.set_trait('image_data', b)
            if k:
                mon.event('image arrived twice')
            with open(path, 'rb') as f:
                mon.equal(f.read(), b, 'the saved file is not the image of the canvas')
    ops = list(flat(rec.ops))
    rects = [(s, a) for k, s, a in ops if k == 'rect']
    texts = [a for k, s, a in ops if k == 'text']
    # background first, covering everything, then the cells in order
    mon.check(rects and rects[0][0] == 'white' and all(near(x, y) for x, y in zip(rects[0][1], (0, 0, W, H))), 'the background does not cover the canvas', first=rects[:1], **w)
    rects = rects[1:]
    n = sum(map(len, rows))
    cells, legend = rects[:n], rects[n:]
    names = []
    for r in rows:
        for c in r:
            if c.name not in names:
                names.append(c.name)
    mon.equal(len(rects), n + (len(names) if leg else 0), 'wrong number of rectangles', rectangles=rects, **w)
    longest = max(sum(c.length for c in r) for r in rows)
    it = iter(cells)
    x0 = y0 = None
    bottom = 0
    for i, r in enumerate(rows):
        off = 0
        for c in r:
            s, (x, y, cw, ch) = next(it)
            mon.event('cell')
            mon.equal(s, '#%02X%02X%02X' % (c.color.red, c.color.green, c.color.blue), 'a cell has the wrong colour', cell=c, **w)
            mon.check(near(cw, c.length * ws) and near(ch, hs), 'a cell has the wrong size', cell=c, drawn=(x, y, cw, ch), **w)
            if x0 is None:
                x0, y0 = x - off, y - i * hs
            mon.check(near(x, x0 + off) and near(y, y0 + i * hs), 'a cell is at the wrong place', cell=c, drawn=(x, y, cw, ch), **w)
            mon.check(x >= -1e-6 and y >= -1e-6 and x + cw < W + 1 and y + ch < H + 1, 'a cell lies outside the canvas', cell=c, drawn=(x, y, cw, ch), canvas=(W, H), **w)
            off += c.length * ws
            bottom = max(bottom, y + ch)
    want = [str(len(rows)), str(longest)] + ([title] if title else [])
    got = [t[0] for t in texts]
    ltexts = []
    if leg:
        ltexts = texts[len(texts) - len(names):]
        got = [t[0] for t in texts[:len(texts) - len(names)]]
    mon.equal(sorted(got), sorted(want), 'the texts of the diagram are wrong', **w)
    for t in texts[:len(texts) - len(ltexts)]:
        mon.check(-1e-6 <= t[1] < W and -1e-6 <= t[2] < H + 1, 'a text starts outside the canvas', text=t, canvas=(W, H), **w)
    if leg:
        color = {c.name: '#%02X%02X%02X' % (c.color.red, c.color.green, c.color.blue) for r in rows for c in r}
        mon.equal(sorted(t[0] for t in ltexts), sorted(names), 'the legend has wrong names', **w)
        taken = []
        for t in ltexts:
            mon.event('legend entry')
            hit = [(s, a) for s, a in legend if a[1] <= t[2] <= a[1] + a[3] and a[0] + a[2] <= t[1] + 1e-6]
            mon.check(len(hit) == 1 and hit[0][0] == color[t[0]], 'a legend entry has the wrong colour', name=t[0], boxes=legend, **w)
            taken.append(hit[0][1][1])
            a = hit[0][1]
            mon.check(a[1] >= bottom - 1e-6 and a[1] + a[3] < H + 1, 'a legend entry overlaps the diagram or lies outside the canvas', box=a, canvas=(W, H), **w)
        mon.check(len(set(taken)) == len(taken), 'two legend entries are at the same place', **w)
    lines = [a for k, s, a in ops if k == 'stroke_line']
    mon.equal(len(lines), 2, 'the axes are not drawn', **w)
    for x1, y1, x2, y2 in lines:
        mon.check((near(x1, x2) or near(y1, y2)) and max(x1, x2) < W + 1 and max(y1, y2) < H + 1 and min(x1, y1, x2, y2) >= 0, 'an axis is not straight or lies outside the canvas', line=(x1, y1, x2, y2), **w)
    if len(rows) > 1:
        mon.distinct(repr(rows), title, leg, ws, hs)
        mon.sample((len(rows), longest, leg, ws, hs, [a for _, a in cells][:4]))

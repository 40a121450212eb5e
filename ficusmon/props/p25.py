"""P25: trace diagrams and histograms show exactly the log."""
import os
from collections import Counter

from ..acts import *
from .. import draw
from ..draw import plt
from ..ref_entropy import dfg_entropies, pos_entropies, close
from .p19 import HIER
from python.ficus.legacy.analysis.event_log_analysis import (
    draw_traces_diversity_diagram, draw_placements_of_concrete_events, draw_placements_of_events, draw_colors_event_log,
    draw_events_entropy_histogram, draw_traces_histogram, plot_logs_traces_histograms, plot_logs_traces_histograms_for_paths,
    Color, ColoredRectangle)
from python.ficus.legacy.analysis.patterns.patterns_graphs import (draw_short_activity_diagram, draw_full_activity_diagram,
                                                                    draw_activity_placement_diagram, draw_patterns)
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.pipelines.analysis.analysis_parts import (
    TracesDiversityDiagram, TracesHistogram, EventsPlacement, DrawDefaultEntropyHistogram, DrawPosEntropyHistogram, DrawPlacementOfEvents)
from python.ficus.legacy.log.functions import save_event_log_to_xes

ID = 'P25'
LEVEL = 'exploration'
CASES = {'quick': 1100, 'thorough': 11000}
RULE = ('random logs, instances, patterns, scales, legends and save paths; the figures are recorded when they are shown or saved and every '
        'rectangle (place, size, colour), legend entry, axis end and file is compared with the log; non-trivial: two rows and two colours')
ASSUMPTIONS = ['the log has at least one trace', 'instances and patterns are ordered and disjoint',
               'no event or activity is called UndefinedActivity']
REQUIRED_EVENTS = ['kind:diversity', 'kind:placement', 'kind:colors', 'kind:short', 'kind:full', 'kind:single', 'kind:patterns',
                   'kind:entropy', 'kind:histogram', 'kind:histograms', 'kind:pos histogram', 'saved', 'shown', 'legend', 'no legend',
                   'cached colour used', 'empty row', 'path from context', 'new directory', 'bare file name', 'scaled', 'row without instances']
BLACK = '#000000'
UND = 'UndefinedActivity'


def check_rows(mon, ax, rows, colors, cached, what, distinct_colors=True, **w):
    """rows: per trace list of (width, name); colors: fixed colour per name (may be empty)."""
    got = draw.rects(ax)
    want = []
    y = 0
    for r in rows:
        x = 0
        h, cells = r
        for width, name in cells:
            if width > 0:
                want.append((x, y, width, h, name))
            x += width
        y += h
    mon.equal([g[:4] for g in got], [tuple(map(float, x[:4])) for x in want], f'{what}: the rectangles are not where they should be',
              cells=[x[4] for x in want], **w)
    seen = {}
    for g, x in zip(got, want):
        name, c = x[4], g[4]
        if isinstance(name, tuple):     # any colour
            continue
        if name in colors:
            mon.equal(c, colors[name], f'{what}: {name!r} has the wrong colour', **w)
        mon.check(seen.setdefault(name, c) == c, f'{what}: {name!r} has two colours', **w)
        if cached is not None and name != UND and name not in colors:
            mon.equal(cached.get(name, '').upper(), c, f'{what}: the colour of {name!r} is not the one remembered for it', cached=cached, **w)
    if distinct_colors:
        vals = [c for n, c in seen.items() if n not in colors]
        mon.check(len(vals) == len(set(vals)), f'{what}: two names share a colour', colors=seen, **w)
    return seen


def check_frame(mon, ax, n, hs, longest, title, what, **w):
    locs, labs = draw.ticks(ax.yaxis)
    mon.check(labs and labs[0] == '0' and labs[-1] == str(n), f'{what}: the y axis does not end with the number of traces', labels=labs, **w)
    mon.check(locs and locs[-1] == n * hs, f'{what}: the last tick of the y axis is not at the last trace', ticks=locs, **w)
    locs, labs = draw.ticks(ax.xaxis)
    mon.check(labs and (labs[0] == '0' or longest == 0) and labs[-1] == str(longest), f'{what}: the x axis does not end with the longest trace', labels=labs, **w)
    if title is not None:
        mon.equal(ax.get_xlabel(), title, f'{what}: the title is missing')


def check_legend(mon, ax, on, seen, what, optional=(), loose=(), **w):
    lg = draw.legend(ax)
    if not on:
        mon.event('no legend')
        mon.check(lg is None, f'{what}: there is a legend although none was asked for', **w)
        return
    mon.event('legend')
    lg = lg or {}
    lg = {k: v for k, v in lg.items() if k not in optional or k in seen}
    want = {k: v for k, v in seen.items() if k not in optional or k in lg}
    mon.equal({k: v for k, v in lg.items() if k not in loose}, {k: v for k, v in want.items() if k not in loose}, f'{what}: the legend is wrong', **w)
    mon.equal(set(lg), set(want), f'{what}: the legend has wrong entries', **w)


def paths(rng, mon, d, i):
    """(save_path argument or None, resolved)"""
    k = rng.randrange(5)
    if k < 2:
        mon.event('shown')
        return None
    mon.event('saved')
    if k == 2:
        mon.event('bare file name')
        return f'bare{i}.png'
    if k == 3:
        mon.event('new directory')
        return os.path.join(d, f'n{i}', 'deep', 'x.png')
    return os.path.join(d, f'p{i}.png')


def one(mon, rec, path, what, shots=1):
    mon.equal(len(rec.shots), shots, f'{what}: not drawn exactly once')
    s = rec.shots[-1]
    mon.equal(s.how, 'shown' if path is None else 'saved', f'{what}: shown instead of saved or the other way round')
    if path is not None:
        mon.equal(os.path.abspath(s.path), os.path.abspath(path), f'{what}: saved to the wrong file')
        mon.check(os.path.exists(path), f'{what}: the file does not exist')
    return s.fig


def random_instances(rng, log, nodes, prob):
    out = []
    for t in log:
        pos, ins = 0, []
        while nodes and pos < len(t):
            if rng.random() < prob:
                l = rng.randint(1, min(5, len(t) - pos))
                ins.append(ActivityInTraceInfo(rng.choice(nodes), pos, l))
                pos += l
            else:
                pos += 1
        out.append(ins)
    return out


def cells(t, ins, short, ws):
    pos, out = 0, []
    for s, l, n in ins + [(len(t), 0, None)]:
        if s > pos:
            out.append(((1 if short else s - pos) * ws, UND))
        if n is not None:
            out.append(((1 if short else l) * ws, n))
        pos = max(pos, s + l)
    if short and not ins:
        out = [(ws, UND)]
    return out


def run_case(rng, index, mon):
    d = mon.scratch
    os.chdir(d)
    kind = ['diversity', 'placement', 'colors', 'short', 'full', 'single', 'patterns', 'entropy', 'histogram', 'histograms', 'pos histogram'][index % 11]
    mon.event('kind:' + kind)
    alpha = gen.alphabet(rng, pool=rng.choice(['letters', 'dotted', 'words', 'prefixes', 'unicode']), k=rng.choice([1, 2, 4, 6, 9]))
    alpha = [a.replace('$', 's').lstrip('_') or 'e' for a in alpha]
    names = gen.names_log(rng, max_traces=6, max_len=10, alpha=alpha, big=0.02, min_traces=1)
    log = fx.log_of_names(names)
    snap = fx.snapshot(log)
    hs, ws = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    if hs > 1 or ws > 1:
        mon.event('scaled')
    on = rng.random() < 0.5
    title = rng.choice([None, 'Title', 'Заголовок'])
    path = paths(rng, mon, d, index)
    arg = path
    cached = {}
    if rng.random() < 0.5:
        cached = {n: '#%02X11%02X' % (i, rng.randrange(256)) for i, n in enumerate(sorted({n for t in names for n in t})) if rng.random() < 0.5}
    ctx = PipelinePartResult().with_log(log).with_cached_colors(cached)
    pre = dict(cached)
    part = rng.random() < 0.5
    if part and path is not None and kind in ('diversity', 'placement', 'short', 'full', 'single', 'patterns') and rng.random() < 0.4:
        mon.event('path from context')
        arg = lambda c: path if A.log(c) is log else 'wrong'
    w = dict(names=names, scales=(hs, ws))
    longest = max(map(len, names))
    if not all(names):
        mon.event('empty row')
    if pre and any(n in pre for t in names for n in t):
        mon.event('cached colour used')
    kw = dict(title=title, plot_legend=on, save_path=arg)
    before_figs = set(plt.get_fignums())
    with draw.recording() as rec:
        if kind == 'diversity':
            if part:
                mon.call(Pipeline(TracesDiversityDiagram(height_scale=hs, width_scale=ws, **kw)), ctx, what='TracesDiversityDiagram')
            else:
                mon.call(draw_traces_diversity_diagram, log, cached, height_scale=hs, width_scale=ws, **kw)
            ax = one(mon, rec, path, kind).axes[0]
            seen = check_rows(mon, ax, [(hs, [(ws, n) for n in t]) for t in names], pre, cached, kind, **w)
            check_frame(mon, ax, len(names), hs, longest, title, kind, **w)
            check_legend(mon, ax, on, seen, kind, **w)
            mon.check(all(cached.get(k) == v for k, v in pre.items()), 'remembered colours were changed')
        elif kind == 'placement':
            chosen = {n for n in {x for t in names for x in t} if rng.random() < 0.5} | {'absent'}
            if part and rng.random() < 0.5:
                kw['save_path'] = path
                mon.call(EventsPlacement(chosen, height_scale=hs, **kw), ctx, what='EventsPlacement')
            elif part:
                mon.call(DrawPlacementOfEvents(lambda n: n in chosen, height_scale=hs, **kw), ctx, what='DrawPlacementOfEvents')
            elif rng.random() < 0.5:
                mon.call(draw_placements_of_concrete_events, log, cached, chosen, height_scale=hs, **kw) if not callable(arg) else None
            else:
                mon.call(draw_placements_of_events, log, cached, lambda n: n in chosen, height_scale=hs, **kw)
            ax = one(mon, rec, path, kind).axes[0]
            fixed = {n: BLACK for t in names for n in t if n not in chosen}
            fixed.update({k: v for k, v in pre.items() if k in chosen})
            seen = check_rows(mon, ax, [(hs, [(1, n) for n in t]) for t in names], fixed, cached, kind, **w)
            check_frame(mon, ax, len(names), hs, longest, title, kind, **w)
            check_legend(mon, ax, on, seen, kind, **w)
            mon.check(set(cached) <= set(pre) | chosen, 'a colour is remembered for an event that was not highlighted', cached=cached, **w)
        elif kind == 'colors':
            pool = [(n, Color(rng.randrange(256), rng.randrange(256), rng.randrange(256))) for n in set(alpha) | {'x' * 60, 'y' * 50}]
            rows = [[ColoredRectangle(c, i, rng.choice([1, 1, 2, 5]), n) for i, (n, c) in enumerate(rng.choices(pool, k=rng.randint(0, 6)))] for _ in range(rng.randint(1, 5))]
            mon.call(draw_colors_event_log, rows, height_scale=hs, width_scale=ws, **{**kw, 'save_path': path})
            ax = one(mon, rec, path, kind).axes[0]
            fixed = {n: '#%02X%02X%02X' % (c.red, c.green, c.blue) for n, c in pool}
            seen = check_rows(mon, ax, [(hs, [(r.length * ws, r.name) for r in t]) for t in rows], fixed, None, kind, False, rectangles=rows, **w)
            check_frame(mon, ax, len(rows), hs, max(sum(r.length for r in t) for t in rows), title, kind, **w)
            check_legend(mon, ax, on, {k[:50]: v for k, v in seen.items()}, kind, **w)
        elif kind in ('short', 'full', 'single'):
            actx = DiscoverActivitiesForSeveralLevels(HIER[:1], ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, adjusting_mode=AdjustingMode.FromAllLog)(
                PipelinePartResult().with_log(log))
            nodes = walk(A.activities(actx))
            inst = A.traces_activities(actx) if rng.random() < 0.4 else random_instances(rng, log, nodes, rng.choice([0.1, 0.5, 0.9]))
            if not all(inst):
                mon.event('row without instances')
            ctx.with_activities(A.activities(actx)).with_trace_activities(inst)
            pl = [[(i.start_pos, i.length, i.node.name) for i in t] for t in inst]
            w['instances'] = pl
            if kind != 'single':
                cached.clear()
                cached.update({n.name: '#%02X22%02X' % (i, rng.randrange(256)) for i, n in enumerate(nodes) if rng.random() < 0.3})
                pre = dict(cached)
                if part:
                    cls = DrawShortActivitiesDiagram if kind == 'short' else DrawFullActivitiesDiagram
                    mon.call(cls(height_scale=hs, width_scale=ws, **kw), ctx, what=cls.__name__)
                else:
                    fn = draw_short_activity_diagram if kind == 'short' else draw_full_activity_diagram
                    mon.call(fn, log, inst, cached, height_scale=hs, width_scale=ws, **kw)
                ax = one(mon, rec, path, kind).axes[0]
                seen = check_rows(mon, ax, [(hs, cells(t, i, kind == 'short', ws)) for t, i in zip(names, pl)], {UND: BLACK, **pre}, cached, kind, **w)
                check_legend(mon, ax, on, seen, kind, optional=(UND,), **w)
            elif nodes:
                target = rng.choice(nodes)
                diff = rng.random() < 0.5
                if part:
                    mon.call(DrawSingleActivityPlacement(lambda a: target, diff, height_scale=hs, **kw), ctx, what='DrawSingleActivityPlacement')
                else:
                    mon.call(draw_activity_placement_diagram, log, target, inst, diff, on, title, hs, path)
                ax = one(mon, rec, path, kind).axes[0]
                only = [[x for x in t if x[2] == target.name] for t in pl]
                rows = [(hs, [(wd, (n, i, j) if n == target.name else n) for j, (wd, n) in enumerate(cells(t, o, False, 1))]) for i, (t, o) in enumerate(zip(names, only))]
                seen = check_rows(mon, ax, rows, {UND: BLACK}, None, kind, **w)
                got = [g for g in draw.rects(ax)]
                flat = [c[1] for _, r in rows for c in r if c[0] > 0]
                cols = {}
                for g, n in zip(got, flat):
                    if isinstance(n, tuple):
                        cols.setdefault(n[1], []).append(g[4])
                for row, cs in cols.items():
                    mon.check((len(set(cs)) == len(cs)) if diff else len(set(cs)) == 1, 'instances of a trace do not have different colours / one colour as asked', colors=cs, different=diff, **w)
                if any(cols):
                    seen[target.name] = None
                check_legend(mon, ax, on, {k: v for k, v in seen.items() if not isinstance(k, tuple)} | ({target.name: None} if cols else {}), kind, optional=(UND,), loose=(target.name,), **w)
            if kind != 'single' or nodes:
                check_frame(mon, ax, len(names), hs, longest, title, kind, **w)
        elif kind == 'patterns':
            pats = [[SubArrayInEventLog(i.start_pos, i.length) for i in t] for t in random_instances(rng, log, [None], rng.choice([0.2, 0.6]))]
            pl = [[(p.first_pos, p.length, tuple(t[p.first_pos:p.first_pos + p.length])) for p in ps] for t, ps in zip(names, pats)]
            short = rng.random() < 0.5
            cached.clear()
            if part:
                mon.call(DrawPatterns(short, height_scale=hs, width_scale=ws, **kw), ctx.with_patterns(pats), what='DrawPatterns')
            else:
                mon.call(draw_patterns, log, pats, cached, height_scale=hs, width_scale=ws, short_diagram=short, **kw)
            ax = one(mon, rec, path, kind).axes[0]
            key = {}
            named = [[(s, l, 'P' + repr(c)) for s, l, c in t] for t in pl]
            seen = check_rows(mon, ax, [(hs, cells(t, i, short, ws)) for t, i in zip(names, named)], {UND: BLACK}, None, kind, patterns=pl, **w)
            mon.equal(sorted(v.upper() for v in cached.values()), sorted(v for k, v in seen.items() if k != UND), 'the colours of the patterns are not remembered', **w)
            check_frame(mon, ax, len(names), hs, longest, title, kind, **w)
            lg = draw.legend(ax)
            mon.check((lg is not None) == on, 'legend shown although not asked for or the other way round')
            if on:
                mon.equal(sorted(v for k, v in lg.items() if k != UND), sorted(v for k, v in seen.items() if k != UND), 'the legend of the patterns is wrong', **w)
        elif kind == 'entropy':
            if path is not None and 'deep' in path:
                path = os.path.join(d, 'e.png')
            ref = dfg_entropies(names, False)
            if part:
                mon.call(DrawDefaultEntropyHistogram(path, title), ctx, what='DrawDefaultEntropyHistogram')
            else:
                mon.call(draw_events_entropy_histogram, log, title, path)
            ax = one(mon, rec, path, kind).axes[0]
            lg = draw.legend(ax) or {}
            got = {}
            for text, c in lg.items():
                n, _, v = text.rpartition(' ')
                got[n] = (float(v), c)
            mon.check(set(got) == set(ref) and all(close(got[n][0], ref[n]) for n in ref), 'the legend does not give the entropies', entries=list(lg), reference=ref, **w)
            bars = {c: h for x, y, wd, h, c in draw.rects(ax)}
            for n, (v, c) in got.items():
                mon.check(close(bars.get(c, 0), v, 1e-5), 'the bar of an event does not have its entropy as height', event=n, bar=bars.get(c), entropy=v, **w)
            vals = [v for v, _ in got.values()]
            mon.check(vals == sorted(vals, reverse=True), 'the legend is not ordered by entropy', entries=list(lg))
            xs = [r[0] for r in draw.rects(ax)]
            mon.check(len(xs) == len(set(xs)), 'bars overlap', bars=draw.rects(ax), **w)
            check_title(mon, ax.figure, title, **w)
        elif kind == 'histogram':
            if path is not None and 'deep' in path:
                path = os.path.join(d, 'h.png')
            plt.figure()
            if part:
                mon.call(TracesHistogram(path, title), ctx, what='TracesHistogram')
            else:
                mon.call(draw_traces_histogram, log, path, title)
            fig = one(mon, rec, path, kind)
            check_hist(mon, rec.hists, [names], **w)
            mon.check(rec.hists[0][0].figure is fig, 'the histogram is not in the figure that is shown')
            check_title(mon, fig, title, **w)
        elif kind == 'histograms':
            if path is not None and 'deep' in path:
                path = os.path.join(d, 'h.png')
            many = [names] + [gen.names_log(rng, max_traces=6, max_len=4, alpha=alpha, min_traces=1) for _ in range(rng.choice([0, 0, 1, 3, 4]))]
            many = [[[n for n in t] for t in l] for l in many]
            logs = [fx.log_of_names(l) for l in many]
            lab = [os.path.join('some', f'log{i}.v{i}.xes') for i in range(len(many))]
            if rng.random() < 0.3:
                lab = [os.path.join(d, f'log{i}.v{i}.xes') for i in range(len(many))]
                for l, p in zip(logs, lab):
                    save_event_log_to_xes(l, p)
                mon.call(plot_logs_traces_histograms_for_paths, lab, path, title)
            else:
                mon.call(plot_logs_traces_histograms, logs, lab, path, title)
            fig = one(mon, rec, path, kind)
            check_hist(mon, rec.hists, many, **w)
            axs = [h[0] for h in rec.hists]
            mon.check(len({id(a) for a in axs}) == len(axs), 'two histograms share one place', **w)
            mon.equal([a.get_title() for a in axs], [f'log{i}.v{i}' for i in range(len(many))], 'the histograms have wrong titles', **w)
            check_title(mon, fig, title, **w)
        else:
            ref = pos_entropies(names)
            if ref:
                plt.figure()
                mon.call(DrawPosEntropyHistogram(), ctx, what='DrawPosEntropyHistogram')
                mon.equal(len(rec.hists), 1, 'not one histogram drawn')
                _, n, bins = rec.hists[0]
                mon.equal(sum(n), len(ref), 'the histogram does not count every event name once', **w)
                eps = 1e-9
                for i, c in enumerate(n):
                    lo, hi = bins[i], bins[i + 1]
                    sure = sum(lo + eps < v < hi - eps for v in ref.values())
                    may = sum(lo - eps <= v <= hi + eps for v in ref.values())
                    mon.check(sure <= c <= may, 'a bar of the histogram is wrong', bar=i, count=c, **w)
    mon.equal(fx.snapshot(log), snap, 'drawing changed the log')
    if path is not None and kind not in ('histogram', 'pos histogram'):
        mon.equal(set(plt.get_fignums()) - before_figs, set(), f'{kind}: a saved figure stays open')
    if len(names) > 1 and len({n for t in names for n in t}) > 1:
        mon.distinct(kind, names, hs, ws, on)
        mon.sample((kind, names, hs, ws))


def check_title(mon, fig, title, **w):
    texts = [fig.get_suptitle()] + [f(a) for a in fig.axes for f in (lambda a: a.get_title(), lambda a: a.get_xlabel())]
    if title is not None:
        mon.check(title in texts, 'the title is not shown', texts=texts, **w)


def check_hist(mon, hists, logs, **w):
    mon.equal(len(hists), len(logs), 'not one histogram per log', **w)
    for (ax, n, bins), l in zip(hists, logs):
        ref = sorted(Counter(map(tuple, l)).values())
        mon.equal(sorted(int(x) for x in n), ref, 'the histogram does not show the numbers of traces per variant', log=l, bins=bins)

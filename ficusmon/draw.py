"""Records what is drawn, at the level of matplotlib: the figures as they are when shown or saved."""
import contextlib
import os

import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.axes import Axes
from matplotlib.colors import to_hex
from matplotlib.figure import Figure
from matplotlib.patches import Rectangle
from matplotlib.transforms import IdentityTransform


class Shot:
    def __init__(self, fig, how, path):
        self.fig, self.how, self.path = fig, how, path
        self.dir_existed = path is None or not isinstance(path, str) or os.path.isdir(os.path.dirname(path) or '.')


class Recorder:
    def __init__(self):
        self.shots = []
        self.hists = []


@contextlib.contextmanager
def recording(real_files=False):
    rec = Recorder()
    old = (Figure.savefig, Figure.show, plt.show, Axes.hist)

    def savefig(self, fname, *a, **k):
        rec.shots.append(Shot(self, 'saved', fname))
        if real_files:
            k.pop('dpi', None)
            return old[0](self, fname, *a, dpi=20, **k)
        if isinstance(fname, str):
            open(fname, 'wb').close()

    def show(self, *a, **k):
        rec.shots.append(Shot(self, 'shown', None))

    def pshow(*a, **k):
        rec.shots.append(Shot(plt.gcf(), 'shown', None))

    def hist(self, *a, **k):
        r = old[3](self, *a, **k)
        rec.hists.append((self, list(r[0]), list(r[1])))
        return r
    Figure.savefig, Figure.show, plt.show, Axes.hist = savefig, show, pshow, hist
    try:
        yield rec
    finally:
        Figure.savefig, Figure.show, plt.show, Axes.hist = old


def rects(ax):
    """[(x, y, w, h, '#RRGGBB')] in drawing order by row and column, zero sized ones left out."""
    out = []
    for p in ax.patches:
        if isinstance(p, Rectangle):
            out.append((p.get_x(), p.get_y(), p.get_width(), p.get_height(), to_hex(p.get_facecolor()).upper()))
    for c in ax.collections:
        fc = c.get_facecolor()
        for i, path in enumerate(c.get_paths()):
            e = path.get_extents(IdentityTransform())
            out.append((e.x0, e.y0, e.width, e.height, to_hex(fc[i % len(fc)]).upper()))
    out = [(round(x, 6), round(y, 6), round(w, 6), round(h, 6), c) for x, y, w, h, c in out]
    return sorted([r for r in out if r[2] > 0 and r[3] > 0], key=lambda r: (r[1], r[0]))


def legend(ax):
    l = ax.get_legend()
    if l is None:
        return None
    handles = getattr(l, 'legend_handles', None) or getattr(l, 'legendHandles', [])
    return {t.get_text(): to_hex(h.get_facecolor()).upper() for t, h in zip(l.get_texts(), handles)}


def ticks(axis):
    return list(axis.get_ticklocs()), [t.get_text() for t in axis.get_ticklabels()]

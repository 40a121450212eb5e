"""P35: dataset visualisations show every row once, at its place, in the colour of its cluster."""
import os

import numpy as np
import pandas as pd
from sklearn.decomposition import PCA
from sklearn.manifold import Isomap, MDS, TSNE
from matplotlib.colors import to_hex

from .. import gen, draw
from ..draw import plt
from python.ficus.legacy.analysis import event_log_analysis as EA
from python.ficus.legacy.analysis.event_log_analysis import Color, NComponents

ID = 'P35'
LEVEL = 'exploration'
CASES = {'quick': 500, 'thorough': 6000}
RULE = ('random datasets (labels of any type, missing colours, label column anywhere) are visualised by all four methods in one, two and three '
        'dimensions; what the projection gets is recorded at the library boundary and what is drawn at the matplotlib boundary; '
        'points, colours, labels, axes and the file are compared; non-trivial: at least two labels')
ASSUMPTIONS = ['the projections themselves are trusted', 'at least one row']
REQUIRED_EVENTS = ['one component', 'two components', 'three components', 'unlabelled', 'labelled', 'colour missing', 'shown', 'saved', 'real projection',
                   'label column inside', 'PCA', 'Isomap', 'MDS', 'TSNE', 'point']
METHODS = {'PCA': (EA.visualize_dataset_pca, PCA), 'Isomap': (EA.visualize_dataset_isomap, Isomap), 'MDS': (EA.visualize_dataset_mds, MDS),
           'TSNE': (EA.visualize_dataset_tsne, TSNE)}
CALLS = []
FAKE = None


def install():
    for cls in (PCA, Isomap, MDS, TSNE):
        if getattr(cls, '_ficusmon', False):
            continue
        cls._ficusmon = True

        def wrap(cls, old):
            def fit_transform(self, X, *a, **k):
                X = np.array(X, copy=True)
                r = FAKE(X.shape[0], self.n_components) if FAKE is not None else old(self, X, *a, **k)
                CALLS.append((cls, self.n_components, X, np.array(r, copy=True)))
                return r
            return fit_transform
        cls.fit_transform = wrap(cls, cls.fit_transform)


def points(c):
    o3 = getattr(c, '_offsets3d', None)
    if o3 is not None:
        return [tuple(round(float(v), 9) for v in p) for p in zip(*[np.ma.getdata(x) for x in o3])]
    return [tuple(round(float(v), 9) for v in p) for p in np.ma.getdata(c.get_offsets())]


def colours(c):
    f = getattr(c, '_facecolor3d', None)
    f = c.get_facecolor() if f is None else f
    return {to_hex(x[:3]).upper() for x in np.atleast_2d(f)}


def run_case(rng, index, mon):
    global FAKE
    install()
    name = rng.choice(list(METHODS))
    fn, cls = METHODS[name]
    mon.event(name)
    nc = rng.choice([NComponents.One, NComponents.Two, NComponents.Three])
    want_nc = {'One': 1, 'Two': 2, 'Three': 3}
    mon.check(nc.name in want_nc and nc.value == want_nc[nc.name], 'a number of components stands for another number', value=nc)
    mon.event(['one component', 'two components', 'three components'][nc.value - 1])
    n, m = rng.randint(1, 14), rng.randint(1, 6)
    real = name == 'PCA' and n >= nc.value and m >= nc.value and rng.random() < 0.5
    FAKE = None
    if real:
        mon.event('real projection')
    else:
        FAKE = lambda rows, k: np.array([[round(rng.uniform(-5, 5), 4) for _ in range(k)] for _ in range(rows)])
    vals = [[rng.choice([0, 1, 2, rng.uniform(-3, 3)]) for _ in range(m)] for _ in range(n)]
    df = pd.DataFrame(vals, columns=[f'c{i}' for i in range(m)], index=[f'r{rng.randrange(5)}' for _ in range(n)])
    labelled = rng.random() < 0.75
    labels, cols, lc = None, {}, None
    if labelled:
        mon.event('labelled')
        pool = rng.choice([[0, 1, 2, 3], [-1, 0, 7, 12], [5], ['a', 'b', 'x y']])
        labels = [rng.choice(pool) for _ in range(n)]
        lc = rng.choice(['cluster_labels', 'label', 'c'])
        pos = rng.choice([m, m, rng.randint(0, m)])
        if pos < m:
            mon.event('label column inside')
        df.insert(pos, lc, labels)
        for l in pool:
            if rng.random() < 0.8:
                cols[l] = Color(rng.randrange(256), rng.randrange(256), rng.randrange(256))
    else:
        mon.event('unlabelled')
        cols = {0: Color(1, 2, 3)} if rng.random() < 0.5 else {}
    before = df.copy(deep=True)
    cb = dict(cols)
    size, view, fs, lcols = (rng.randint(2, 9), rng.randint(2, 9)), rng.choice([(0, 0), (0, 90), (-90, 0), (rng.randint(-180, 180), rng.randint(-80, 80)), (rng.randint(-180, 180), rng.randint(-80, 80))]), rng.randint(5, 30), rng.randint(1, 4)
    path = None
    if rng.random() < 0.5:
        path = os.path.join(mon.scratch, f'd{index}.png')
    del CALLS[:]
    plt.close('all')
    kw = dict(save_path=path) if path else {}
    if lc is not None:
        kw['label_column'] = lc
    w = dict(df=df.to_string(), method=name, components=nc, labels=labels, colours={k: v.to_hex() for k, v in cols.items()})
    with draw.recording() as rec:
        mon.call(fn, df, nc, cols, size, view, fs, lcols, what='visualize ' + name, **kw)
    mon.equal(len(rec.shots), 1, 'the visualisation is not shown or saved exactly once', **w)
    shot = rec.shots[0]
    mon.event(shot.how)
    mon.equal((shot.how, shot.path), ('saved', path) if path else ('shown', None), 'the visualisation goes to the wrong place', **w)
    mon.check(df.equals(before) and list(df.columns) == list(before.columns), 'the dataset is changed', **w)
    mon.equal(cols, cb, 'the colours are changed', **w)
    mine = [c for c in CALLS if c[0] is cls]
    mon.check(len(mine) == 1 and len(CALLS) == 1, 'the dataset is not projected once by the method asked for', calls=[(c[0].__name__, c[1]) for c in CALLS], **w)
    _, k, X, R = mine[0]
    mon.equal(k, nc.value, 'wrong number of components', **w)
    mon.check(X.shape == (n, m) and np.allclose(X.astype(float), np.array(vals, dtype=float)), 'not exactly the values of the dataset are projected', projected=X, **w)
    emb = [tuple(round(float(v), 9) for v in r) for r in R[:, :nc.value]]
    if nc.value == 1:
        emb = [(e[0], 0.0) for e in emb]
    fig = shot.fig
    mon.equal(len(fig.axes), 1, 'not one diagram', **w)
    ax = fig.axes[0]
    mon.equal(tuple(round(float(v), 6) for v in fig.get_size_inches()), tuple(float(v) for v in size), 'wrong size', **w)
    mon.check((ax.name == '3d') == (nc.value == 3), 'wrong kind of axes', axes=ax.name, **w)
    got = []
    for c in ax.collections:
        for p in points(c):
            got.append((p, c.get_label() if labelled else None, tuple(sorted(colours(c))) if labelled else None))
    mon.event('point', len(got))
    if labelled:
        if any(l not in cols for l in labels):
            mon.event('colour missing')
        exp = [(e, f'CLUSTER_{l}', (cols[l].to_hex().upper() if l in cols else '#FFFFFF',)) for e, l in zip(emb, labels)]
        leg = ax.get_legend()
        mon.check(leg is not None, 'there is no legend', **w)
        texts = [t.get_text() for t in leg.get_texts()]
        mon.equal(sorted(texts), sorted({f'CLUSTER_{l}' for l in labels}), 'the legend does not name each cluster once', **w)
        mon.equal(getattr(leg, '_ncols', lcols), lcols, 'wrong number of legend columns', **w)
        hs = getattr(leg, 'legend_handles', [])
        for t, h in zip(texts, hs):
            l = next(x for x in labels if f'CLUSTER_{x}' == t)
            mon.equal({to_hex(x[:3]).upper() for x in np.atleast_2d(h.get_facecolor())}, {cols[l].to_hex().upper() if l in cols else '#FFFFFF'},
                      'a legend entry has the wrong colour', entry=t, **w)
    else:
        exp = [(e, None, None) for e in emb]
    mon.equal(sorted(got), sorted(exp), 'the points drawn are not the rows of the dataset with the colours of their clusters', **w)
    labs = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if nc.value == 3 else [])
    mon.equal(labs, [f'Component {i + 1}' for i in range(len(labs))], 'wrong axis labels', **w)
    sizes = {a.label.get_fontsize() for a in [ax.xaxis, ax.yaxis] + ([ax.zaxis] if nc.value == 3 else [])}
    mon.equal(sizes, {float(fs)}, 'wrong font size', **w)
    if nc.value == 3:
        mon.equal((ax.elev, ax.azim), view, 'wrong view', **w)
    if labelled and len(set(labels)) > 1:
        mon.distinct(name, nc, vals, labels)
        mon.sample({'method': name, 'rows': n, 'labels': sorted(map(str, set(labels)))})
    plt.close('all')

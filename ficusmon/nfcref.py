"""Reference of the alpha++ nfc miner: the relations of implicit dependency (W1, W2, W3) and the places they give, over sets."""
import itertools
from collections import defaultdict


def sets(items, ok):
    """All non-empty sets of items every two of which (an item with itself included) are ok."""
    items = [x for x in items if ok(x, x)]
    out = []
    for n in range(1, len(items) + 1):
        level = [frozenset(s) for s in itertools.combinations(items, n) if all(ok(x, y) and ok(y, x) for x, y in itertools.combinations(s, 2))]
        if not level:
            break
        out += level
    return out


def top(found):
    found = set(found)
    return {x for x in found if not any(x != y and all(p <= q for p, q in zip(x, y)) for y in found)}


class Eventually:
    """The pairs of the relation >>, each decided once: all at once from the log alone, or when first asked for."""
    def __init__(self, decide):
        self.decide = decide
        self.known = {}

    def __contains__(self, pair):
        if pair not in self.known:
            self.known[pair] = self.decide(*pair)
        return self.known[pair]

    def settle(self, pairs):
        return [p for p in pairs if p in self]


class Nfc:
    def __init__(self, log, early=True):
        self.log = log
        self.tri = {(t[i], t[i + 1]) for t in log for i in range(len(t) - 2) if t[i] == t[i + 2]}
        full = {p for t in log for p in zip(t, t[1:])}
        self.full = full
        self.loops = {a for a, b in full if a == b}
        self.kept = [[e for e in t if e not in self.loops] for t in log]
        self.df = {p for t in self.kept for p in zip(t, t[1:])}
        self.classes = sorted({e for t in self.kept for e in t})
        self.extra = set()
        self.every = sorted({e for t in log for e in t})
        self.far = Eventually(self.eventually)
        if early:
            self.far.settle((a, b) for a in self.every for b in self.every)

    def unrelated(self, a, b):
        return (a, b) not in self.df and (b, a) not in self.df

    def causal(self, a, b):
        return (a, b) in self.extra or (a, b) in self.df and ((b, a) not in self.df or (a, b) in self.tri or (b, a) in self.tri)

    def parallel(self, a, b):
        return (a, b) in self.df and (b, a) in self.df and (a, b) not in self.tri and (b, a) not in self.tri

    def split(self, a, b):
        return self.unrelated(a, b) and any(self.causal(c, a) and self.causal(c, b) for c in self.classes)

    def join(self, a, b):
        return self.unrelated(a, b) and any(self.causal(a, c) and self.causal(b, c) for c in self.classes)

    def eventually(self, a, b):
        """>>: b some time after a, never right after it, with nothing between that excludes a."""
        if (a, b) in self.df:
            return False
        for t in self.log:
            last = None
            for i, e in enumerate(t):
                if e == a:
                    last = i
                elif e == b and last is not None:
                    between = [x for x in t[last + 1:i] if x not in self.loops]
                    if between and not any(self.split(x, a) or self.join(x, a) for x in between):
                        return True
                    last = None
        return False

    def leads(self, a, b):
        return self.causal(a, b) or (a, b) in self.far

    def touches(self, a, b):
        return self.leads(a, b) or self.parallel(a, b)

    def places(self):
        free = sets(self.classes, self.unrelated)
        out = []
        followed = {a for a, _ in self.df}
        for a in free:
            if a <= followed:
                after = {b for b in self.classes if all(self.causal(x, b) for x in a)}
                out += [(a, b) for b in free if b <= after]
        return top(out)

    def net(self):
        """pre and post of every class: sets of places; places: key -> (in, out)."""
        at = {p: (set(p[0]), set(p[1])) for p in self.places()}
        at['start'] = (set(), {t[0] for t in self.kept if t})
        at['end'] = ({t[-1] for t in self.kept if t}, set())
        for x in self.loops:
            key = (frozenset(a for a, b in self.full if b == x and a != x), frozenset(b for a, b in self.full if a == x and b != x))
            at.setdefault(key, (set(), set()))
            at[key][0].add(x)
            at[key][1].add(x)
        pre, post = defaultdict(set), defaultdict(set)
        for p, (i, o) in at.items():
            for x in i:
                post[x].add(p)
            for x in o:
                pre[x].add(p)
        return at, pre, post

    def mine(self):
        C = self.classes
        # places of one-length loops, over the log with them
        tri, full = self.tri, self.full
        ok = lambda a, c, b: ((a, c) in full and (c, a) not in tri and (c, b) in full and (c, b) not in tri
                              and not ((a, b) in full and (b, a) in full and (a, b) not in tri and (b, a) not in tri)
                              and (a, a) not in full and (b, b) not in full)
        singles = [(a, b, c) for c in self.loops for a in self.every for b in self.every if ok(a, c, b)]
        triples = maximal_products(singles)
        # W1, from the net of the log with its one-length loops
        kept, df, classes = self.kept, self.df, self.classes
        self.kept, self.df, self.classes = self.log, self.full, self.every
        at, pre, post = self.net()
        self.kept, self.df, self.classes = kept, df, classes
        w1 = set()
        for a in C:
            for b in C:
                if (a, b) not in self.df and any(
                        p != q and a in at[p][0] and a not in at[q][0] and b in at[q][1] and not any(self.touches(t, a) for t in at[q][0])
                        for x in C for p in pre[x] for q in pre[x]):
                    w1.add((a, b))
        self.extra |= w1
        # W2
        at, pre, post = self.net()
        w2 = set()
        for a, b in self.far.settle(itertools.product(C, C)):
            if len(post[a]) > 1 and any(self.split(b, o) and any(
                    not any(self.touches(t, b) for t in at[p][1]) and any(self.touches(t, o) for t in at[p][1]) for p in post[a]) for o in C):
                w2.add((a, b))
            if len(pre[b]) > 1 and any(self.join(a, o) and any(
                    not any(self.touches(a, t) for t in at[p][0]) and any(self.touches(o, t) for t in at[p][0]) for p in pre[b]) for o in C):
                w2.add((a, b))
        w2 = {(a, c) for a, c in w2 if not any(((a, b) in w2 and self.leads(b, c)) or ((b, c) in w2 and self.leads(a, b)) for b in C)}
        w12 = w1 | w2
        apart = lambda x, y: self.unrelated(x, y) and (x, y) not in self.far
        y = set()
        for A, B in self.places():
            lefts = [x for x in C if x not in A and all((x, b) in w12 for b in B) and all(apart(x, a) for a in A)]
            rights = [x for x in C if x not in B and all((a, x) in w12 for a in A) and all(apart(b, x) for b in B)]
            best = set()
            for n in range(len(lefts) + 1):
                for L in itertools.combinations(lefts, n):
                    R = frozenset(r for r in rights if all((l, r) in w12 for l in L))
                    best.add((frozenset(L), R))
            y |= {(A | L, B | R) for L, R in top(best)}
        # W3
        self.extra |= w2
        at, pre, post = self.net()
        w3 = set()
        far = self.far
        for a, b in far.settle(itertools.product(C, C)):
            found = False
            for a2 in C:
                for b2 in C:
                    if a2 == b2 or not post[a] & post[a2] or not pre[b] & pre[b2] or (a, b2) in far or (a2, b) in far or (a2, b2) not in far:
                        continue
                    right = set(pre[b2])
                    for t in C:
                        if (a, t) not in far and (a2, t) in far and (self.parallel(b2, t) or self.leads(b2, t)) and pre[b] & pre[t]:
                            right |= pre[t]
                    if pre[b] <= right:
                        found = True
            if found:
                w3.add((a, b))
        free = sets(C, self.unrelated)
        z = []
        for A in free:
            after = {b for b in C if all((x, b) in w3 for x in A)}
            z += [(A, B) for B in free if B <= after]
        z = top(z)
        taken = {(a, b) for a, b, _ in triples}
        result = {p for p in z | y if p not in taken} | {(a | c, b | c) for a, b, c in triples}
        return dict(places=result, w1=w1, w2=w2, w3=w3, triples=triples, z=z, y=y)


def maximal_products(triples):
    """Maximal (A, B, C) with A x B x C inside the given triples."""
    ok = set(triples)
    done = set()
    work = {(frozenset([a]), frozenset([b]), frozenset([c])) for a, b, c in triples}
    seen = set(work)
    best = set()
    while work:
        A, B, C = work.pop()
        grown = False
        for k, s in enumerate((A, B, C)):
            for x in {t[k] for t in ok} - s:
                n = [A, B, C]
                n[k] = s | {x}
                if all(p in ok for p in itertools.product(*[n[i] if i != k else {x} for i in range(3)])):
                    grown = True
                    n = tuple(n)
                    if n not in seen:
                        seen.add(n)
                        work.add(n)
        if not grown:
            best.add((A, B, C))
    return best

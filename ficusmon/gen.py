"""Seeded generators of realistic and hostile event logs (as plain data first, so that every
oracle works on data the code under test has never touched)."""
from datetime import datetime, timedelta, timezone

NAME = 'concept:name'
LIFE = 'lifecycle:transition'
TIME = 'time:timestamp'

LETTERS = list('abcdefghijklmnop')
POOLS = {
    'letters': LETTERS,
    'upper': list('ABCDEFGHIJKLMNOP'),
    'words': ['register request', 'check ticket', 'decide', 'pay compensation', 'reject', 'examine', 'Ship Goods',
              'close case', 'notify', 'archive', 'escalate', 'approve'],
    'dotted': ['x.a.1', 'x.a.2', 'x.b.1', 'x.b.2', 'y.a.1', 'y.a.2', 'y.b.1', 'z.c.1', 'z.c.2', 'z.d.3', 'w.e.1', 'w.e.2'],
    'prefixes': ['a', 'ab', 'abc', 'b', 'ba', 'bab', 'aa', 'aaa', 'bb', 'ac', 'aab', 'abb'],
    'hashy': ['Cb', 'ba', 'Aa', 'BB', 'Ab', 'BC', 'ca', 'DB', 'AaAa', 'BBBB', 'AaBB', 'BBAa'],
    'unicode': ['приём', 'оплата', '確認', '出荷', 'naïve', 'Zoë', '🚚 ship', 'ß', 'ẞ', 'İ', 'e\u0301', 'é'],
    'odd': ['', ' ', 'a b', 'a::b', "it's", '"q"', '<tag>', '&amp;', 'a=b', '0', '-1', 'None'],
    'reserved': ['FAKE_START_', 'ARTIFICIAL', 'Undefined', 'root_', 'Activity', 'event', 'start', 'end', 'A_0', 'A_1',
                 'xx', 'yy'],
    'numbers': [str(i) for i in range(16)],
    'long': ['step ' + 'x' * (20 + i) for i in range(12)],
}


def alphabet(rng, k=None, pool=None):
    pool = pool or rng.choices(list(POOLS), weights=[6, 3, 3, 3, 3, 3, 3, 2, 1, 1, 1])[0]
    names = list(POOLS[pool])
    k = k or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12])
    rng.shuffle(names)
    names = names[:k]
    if rng.random() < 0.15:
        other = rng.choice(POOLS[rng.choice(['letters', 'words', 'prefixes', 'hashy', 'unicode'])])
        if other not in names:
            names.append(other)
    return names


def trace(rng, alpha, length):
    """A trace with structure: motifs, tandem repetitions, long runs, permuted motifs, noise."""
    if length <= 0 or not alpha:
        return []
    mode = rng.random()
    if mode < 0.25:
        return [rng.choice(alpha) for _ in range(length)]
    out = []
    motifs = [[rng.choice(alpha) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3 and len(alpha) > 1:
        motifs.append(rng.sample(alpha, min(len(alpha), rng.randint(2, 4))))
    while len(out) < length:
        r = rng.random()
        m = rng.choice(motifs)
        if r < 0.45:
            out.extend(m * rng.randint(1, 4))
        elif r < 0.6:
            p = list(m)
            rng.shuffle(p)
            out.extend(p)
        elif r < 0.75:
            out.append(rng.choice(alpha))
        else:
            out.extend(m)
    return out[:length]


def names_log(rng, max_traces=8, max_len=14, allow_empty_traces=True, allow_empty_log=True, pool=None, big=0.06,
              alpha=None, min_traces=0, min_len=0, huge=0.006):
    alpha = alpha or alphabet(rng, pool=pool)
    if huge and rng.random() < huge:
        return huge_log(rng, alpha, allow_empty_traces and min_len == 0, min_traces)
    if rng.random() < big:
        max_traces, max_len = max_traces * 3, max_len * 4
    lo = max(min_traces, 0 if allow_empty_log and rng.random() < 0.08 else 1)
    n = lo if rng.random() < 0.1 else rng.randint(lo, max(lo, max_traces))
    log = []
    for _ in range(n):
        if log and rng.random() < 0.25:
            t = list(rng.choice(log))
            if t and rng.random() < 0.4:
                t[rng.randrange(len(t))] = rng.choice(alpha)
            log.append(t)
            continue
        if allow_empty_traces and min_len == 0 and rng.random() < 0.07:
            log.append([])
            continue
        length = rng.randint(max(1, min_len), max_len)
        if rng.random() < 0.1:
            length = max(1, min_len)
        log.append(trace(rng, alpha, length))
    return log


def huge_log(rng, alpha, allow_empty_traces=True, min_traces=0):
    """Many classes, many traces, long traces: names are the given ones with digits appended."""
    many = list(dict.fromkeys(list(alpha) + [f'{rng.choice(alpha)}{i}' for i in range(rng.choice([20, 70, 120]))]))
    log = []
    for _ in range(max(min_traces, rng.choice([3, 25, 70]))):
        r = rng.random()
        if r < 0.04 and allow_empty_traces:
            log.append([])
        elif r < 0.15 and log:
            log.append(list(rng.choice(log)))
        elif r < 0.75:
            own = rng.sample(many, min(len(many), rng.randint(2, 6)))
            log.append(trace(rng, own, rng.choice([4, 8, 12, 20])))
        else:
            log.append(trace(rng, many, rng.choice([8, 30, 50])))
    return log


T0 = datetime(2021, 3, 1, 9, 30, tzinfo=timezone.utc)


def value(rng):
    r = rng.randrange(11)
    if r < 3:
        return rng.choice(['', 'x', 'Ann', 'a,b', 'line\nbreak', 'tab\there', '<&>"\'', 'ünï', 'true', 'false', '12', '1.5',
                           ' lead', 'trail ', '2020-01-01', '確認', '>', 'a > b', 'None', '\r\n', 'x' * 300])
    if r < 5:
        return rng.choice([0, 1, -1, 7, 10 ** 12, -2 ** 40, 2 ** 63 - 1, rng.randint(-1000, 1000)])
    if r < 7:
        return rng.choice([0.0, 1.0, -2.5, 1e-9, 1e22, 0.1 + 0.2, 3.14159, -1e-300, float(rng.randint(-50, 50)), 1 / 3,
                           1e16, 123456789.125])
    if r < 9:
        return rng.random() < 0.5
    if r < 10:
        return T0 + timedelta(seconds=rng.randint(0, 10 ** 7), microseconds=rng.choice([0, 0, 1, 500000, 999999]))
    tz = timezone(timedelta(minutes=rng.choice([0, 60, -300, 330, 765])))
    d = datetime(rng.choice([1970, 1999, 2020, 2038]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                 rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 120000, 1]))
    return d.replace(tzinfo=tz) if rng.random() < 0.7 else d


KEYS = ['org:resource', 'cost', 'Amount', 'flag', 'note', 'x y', 'ключ', 'a:b', 'Key-1', 'id', 'value', 'key', 'k']


def payload(rng, name, rich=True):
    p = {NAME: name}
    if rich:
        if rng.random() < 0.5:
            p[LIFE] = rng.choice(['start', 'complete', 'suspend'])
        if rng.random() < 0.5:
            p[TIME] = T0 + timedelta(minutes=rng.randint(0, 10 ** 5))
        for k in rng.sample(KEYS, rng.randint(0, 3)):
            p[k] = value(rng)
    if rng.random() < 0.3:
        items = list(p.items())
        rng.shuffle(items)
        p = dict(items)
    return p


def payload_log(rng, names, rich=True):
    return [[payload(rng, n, rich) for n in t] for t in names]

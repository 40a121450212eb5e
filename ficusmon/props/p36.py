"""P36: printed reports and saved listings state exactly the data."""
import ast
import os
from collections import Counter

from ..acts import *
from .p19 import HIER
from python.ficus.legacy.pipelines.analysis.analysis_parts import (SaveAllEventNames, PrintEventLogInfo, PrintEventLogInfoBeforeAndAfter,
                                                                    PrintDFG)
from python.ficus.legacy.pipelines.mutations.mutations_parts import *
from python.ficus.legacy.analysis.patterns.constants import underlying_events_key

ID = 'P36'
LEVEL = 'exploration'
CASES = {'quick': 3000, 'thorough': 40000}
RULE = ('random logs with real activity discoveries and hand made forests (levels, same names, deep nesting); every printing and saving part is '
        'run and its text is compared with one computed from the log, forest and instances; non-trivial: at least one activity or two names')
ASSUMPTIONS = ['paths are writable']
REQUIRED_EVENTS = ['activities', 'unattached', 'percentage', 'empty log', 'count', 'hashes', 'names file', 'instances file', 'callable path',
                   'indices file', 'event names', 'info', 'before and after', 'dfg', 'cleared', 'underlying', 'nested events', 'several levels',
                   'same name twice', 'silent', 'deep forest']
RULER = '=' * 44


def forest(rng, mon, log, names):
    """A hand made forest over a log."""
    lv = rng.choice([[0], [0, 1], [2, 0, 5]])
    if len(lv) > 1:
        mon.event('several levels')
    pool = gen.alphabet(rng, k=4)

    def node(depth):
        n = EP.ActivityNode(rng.choice(pool) + '::' + rng.choice(pool), EP.SubArrayWithTraceIndex(0, 0, 0), set(), by_name, rng.choice(lv))
        if depth:
            for _ in range(rng.choice([0, 1, 1, 2])):
                n.child_nodes.append(node(depth - 1))
        elif rng.random() < 0.3:
            mon.event('deep forest')
        return n

    roots = [node(3) for _ in range(rng.randint(0, 4))]
    alln = walk(roots)
    inst = []
    for t in names:
        row, i = [], 0
        while i < len(t):
            ln = rng.randint(1, 3)
            if alln and rng.random() < 0.5 and i + ln <= len(t):
                row.append(ActivityInTraceInfo(rng.choice(alln), i, ln))
                i += ln
            else:
                i += 1
        inst.append(row)
    return roots, inst


def info_text(names):
    return (f'{RULER}\nNumber of traces in log: {len(names)}\nNumber of events in log: {sum(map(len, names))}\n'
            f'Number of low-level event classes in log: {len({n for t in names for n in t})}\n{RULER}\n')


def run_case(rng, index, mon):
    names = rep_log(rng)
    log = fx.log_of_names(names, uid=True)
    d = os.path.join(mon.scratch, f'c{index}')
    os.makedirs(d)
    if rng.random() < 0.5:
        ext = rng.choice(EXTRACTORS[1:])
        ctx = mon.call(Pipeline(UseExistingLog(), DiscoverActivitiesFromPatterns(pattern_source(rng, ext), class_extractor=ext, activity_level=rng.choice([0, 3])),
                                DiscoverActivitiesInTraces(ext)), log, what='discovery')
        roots, inst = A.activities(ctx), A.traces_activities(ctx)
    else:
        roots, inst = forest(rng, mon, log, names)
        ctx = PipelinePartResult().with_log(log).with_activities(roots).with_trace_activities(inst)
    w = dict(names=names, roots=[str(r.name) for r in roots], instances=[[(i.node.name, i.start_pos, i.length) for i in t] for t in inst])
    allnames = [n for t in names for n in t]
    if roots or len(set(allnames)) > 1:
        mon.distinct(names, w['instances'])
        mon.sample((names, w['roots']))

    def printed(part, c=None):
        mon.out.seek(0)
        mon.out.truncate()
        r = mon.call(part, c or ctx)
        text = mon.out.getvalue()
        if c is None:
            mon.check(r is ctx, 'a report did not hand on its context', part=type(part).__name__)
        return text

    def saved(part, path):
        mon.call(part, ctx)
        with open(path, newline='') as f:
            return f.read()

    # activities
    mon.event('activities')
    mon.equal(printed(PrintActivities()), 'Found activities:\n' + ''.join(f'{r.name}\n\n' for r in roots), 'the printed activities are wrong', **w)
    mon.event('silent')
    mon.equal(printed(PrintActivities(False)), '', 'activities were printed although it was not asked for')
    mon.event('count')
    mon.equal(printed(PrintFoundActivitiesCount()), f'Discovered {len(roots)} activities\n', 'the printed number of activities is wrong', **w)
    mon.event('hashes')
    # texts may contain line breaks: the multiset of lines is compared
    want = Counter(('\n'.join(f'{hash(n)} = {n.name}' for n in walk(roots)) + '\n').splitlines() if roots else [])
    mon.equal(Counter(printed(PrintActivitiesNamesToHashes()).splitlines()), want, 'the printed hashes are wrong', **w)
    # unattached events
    att = [{k for i in t for k in range(i.start_pos, i.start_pos + i.length)} for t in inst]
    free = [n for t, a in zip(names, att) for k, n in enumerate(t) if k not in a]
    mon.event('unattached')
    text = printed(PrintUnattachedEvents())
    try:
        got = ast.literal_eval(text.strip())
    except (ValueError, SyntaxError):
        got = text
    mon.check(isinstance(got, list) and len(got) == len(set(free)) and set(got) == set(free), 'the printed unattached events are wrong', printed=text, unattached=sorted(set(free)), **w)
    text = printed(CalculatePercentageOfUnattachedEvents())
    if allnames:
        mon.event('percentage')
        head, _, val = text.strip().rpartition(': ')
        mon.check(head == 'Percentage of unattached events' and abs(float(val) - len(free) / len(allnames)) < 1e-12, 'the percentage of unattached events is wrong', printed=text, free=len(free), **w)
    else:
        mon.event('empty log')
        mon.equal(text, 'Log is empty, can not calculate unattached events percentage\n', 'the report on an empty log is wrong')
    # underlying events
    mon.event('underlying')

    def nest(depth):
        e = fx.MyEvent({NAME: 'x'})
        leaves = 1
        if depth and rng.random() < 0.6:
            kids = [nest(depth - 1) for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 3))]
            e[underlying_events_key] = [k for k, _ in kids]
            leaves = sum(c for _, c in kids)
        return e, leaves
    nested, total = fx.MyEventLog(), 0
    for _ in range(rng.randint(0, 3)):
        evs = [nest(3) for _ in range(rng.randint(0, 4))]
        total += sum(c for _, c in evs)
        if any(underlying_events_key in e.payload for e, _ in evs):
            mon.event('nested events')
        nested.append(fx.MyTrace([e for e, _ in evs]))
    snap = fx.snapshot(nested)
    mon.equal(printed(PrintNumberOfUnderlyingEvents(), PipelinePartResult().with_log(nested)), f'Underlying events count: {total}\n', 'the number of underlying events is wrong', log=snap)
    mon.equal(fx.snapshot(nested), snap, 'counting underlying events changed the log')
    # files
    mon.event('names file')
    text = saved(SaveAllActivitiesNames(os.path.join(d, 'names.txt')), os.path.join(d, 'names.txt'))
    levels = sorted({r.activity_level for r in roots})
    pos = 0
    for lv in levels:
        head = f'ACTIVITIES LEVEL {lv}\n\n{"=" * 196}\n'
        mon.check(text.startswith(head, pos), 'the list of activities lacks a level', level=lv, text=text, **w)
        pos += len(head)
        tail = f'{"=" * 196}\n\n'
        end = text.find(tail, pos)
        mon.check(end >= 0, 'the list of activities is not closed', text=text)
        nodes = walk([r for r in roots if r.activity_level == lv])
        # children of a node that is skipped because its name was already listed are skipped too, in the order of the walk: names are
        # therefore required once when they are reachable without passing a repeated name
        seen, q = set(), [r for r in roots if r.activity_level == lv]
        uniq = Counter(n.name for n in nodes)
        if max(uniq.values()) > 1:
            mon.event('same name twice')
            while q:
                n = q.pop()
                if n.name in seen:
                    continue
                seen.add(n.name)
                if uniq[n.name] == 1:
                    q.extend(n.child_nodes)
            body = text[pos:end]
            lines = Counter(body.splitlines())
            mon.check(all(lines[x] == 1 for x in seen if '\n' not in x and '\r' not in x) and not set(lines) - {y for n in nodes for y in n.name.splitlines()},
                      'the list of activities is wrong', level=lv, text=text, wanted=sorted(seen), **w)
        else:
            mon.equal(Counter(text[pos:end].splitlines()), Counter(''.join(n.name + '\n' for n in nodes).splitlines()), 'the list of activities is wrong', level=lv, **w)
        pos = end + len(tail)
    mon.equal(text[pos:], '', 'the list of activities has more levels than there are')
    mon.event('instances file')
    path = os.path.join(d, 'inst.txt')
    arg = path
    if rng.random() < 0.4:
        mon.event('callable path')
        arg = lambda: path
    order, seen = [], set()
    for t in inst:
        for i in t:
            if id(i.node) not in seen:
                seen.add(id(i.node))
                order.append(i.node)
    mon.equal(saved(SaveAllActivitiesInstancesNames(arg), path), ''.join(f'{n.unique_name()}={n.name}\n' for n in order), 'the list of activities with instances is wrong', **w)
    mon.event('indices file')
    path = os.path.join(d, 'idx.txt')
    mon.equal(saved(WriteActivitiesInstancesIndices(path), path),
              ''.join(f'Trace {k}\n' + ''.join(f'({i.node.unique_name()}, {i.start_pos}, {i.length})\n' for i in t) + '\n' for k, t in enumerate(inst)),
              'the list of instances is wrong', **w)
    mon.event('event names')
    path = os.path.join(d, 'events.txt')
    text = saved(SaveAllEventNames(path), path)
    uniq = list(dict.fromkeys(allnames))
    if any('\n' in n for n in uniq):
        mon.equal(Counter(text), Counter('\n\n'.join(uniq)), 'the list of event names is wrong', **w)
    else:
        mon.equal(Counter(text.split('\n\n')), Counter(uniq or ['']), 'the list of event names is wrong', **w)
    # log information
    mon.event('info')
    mon.equal(printed(PrintEventLogInfo()), info_text(names), 'the printed log information is wrong', **w)
    mon.event('before and after')
    victim = rng.choice(allnames) if allnames else 'none'
    after = [t2 for t in names if (t2 := [n for n in t if n != victim])]
    c2 = PipelinePartResult().with_log(log)
    title = rng.choice(gen.alphabet(rng, k=3))
    mon.out.seek(0)
    mon.out.truncate()
    r = mon.call(PrintEventLogInfoBeforeAndAfter(title, Pipeline(RemoveEventFromLogByName(victim))), c2)
    text = mon.out.getvalue()
    mon.equal(text, f'Operation {title} started\n{info_text(names)}{info_text(after)}Operation {title} finished\n\n', 'the information before and after an operation is wrong', **w)
    mon.equal(fx.names(A.log(r)), after, 'the operation between the two reports was not applied', **w)
    # directly follows
    mon.event('dfg')
    chosen = set(rng.sample(uniq, rng.randint(0, len(uniq)))) | ({'FAKE_START'} if rng.random() < 0.5 else set())
    pairs = Counter()
    for t in names:
        for a, b in zip(['FAKE_START'] + t, t + ['FAKE_END']) if t else ():
            pairs[a, b] += 1
    asked = []
    text = printed(PrintDFG(lambda n: (asked.append(n), n in chosen)[1]))
    want = Counter()
    for n in {a for a, _ in pairs} & chosen:
        block = f'Followers of {n}:\n'
        want[block] += 1
    if not any(ch in x for x in uniq for ch in '\n\r:'):
        got, cur = {}, None
        for line in text.split('\n'):
            if line.startswith('Followers of ') and line.endswith(':'):
                cur = line[len('Followers of '):-1]
                mon.check(cur not in got, 'followers are printed twice', name=cur, text=text)
                got[cur] = {}
            elif line:
                k, _, v = line.rpartition(': ')
                mon.check(cur is not None and k not in got[cur], 'a follower is printed twice', text=text)
                got[cur][k] = v
        exp = {}
        for (a, b), c in pairs.items():
            if a in chosen:
                exp.setdefault(a, {})[b] = str(c)
        mon.equal(got, exp, 'the printed followers are wrong', chosen=sorted(chosen), text=text, **w)
    # clearing
    mon.event('cleared')
    r = mon.call(ClearActivities(), ctx)
    mon.equal((A.activities(r), A.traces_activities(r), A.repeat_sets(r), A.patterns(r)), ([], [[] for _ in names], [], [[] for _ in names]), 'activities were not cleared')
    rows = A.traces_activities(r)
    mon.check(len({id(x) for x in rows}) == len(rows), 'cleared traces share one list of instances')
    mon.check(A.log(r) is log, 'clearing activities replaced the log')

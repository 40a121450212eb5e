#!/usr/bin/env python3
"""Automatic mutation testing of the checks: small syntactic changes of the code under test, each run in a scratch copy against
the checks that look at that file (tests are not run: survivors are reviewed by hand).
Usage: mutate.py OUT.jsonl [--every N] [--offset K] [--only SUBSTRING] [--jobs J]"""
import argparse, ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/python/ficus'
CHECKS = [
    ('legacy/log/event_log.py', 'P03 P08 P06 P18 P24'), ('legacy/log/functions.py', 'P01 P02 P05'), ('legacy/log/pm4py', 'P04 P29'),
    ('legacy/util.py', 'P03 P26 P09 P07 P14 P32'), ('legacy/mutations', 'P06 P08 P12'), ('legacy/filtering', 'P12'),
    ('entropy.py', 'P10 P11 P12 P25'), ('event_log_info.py', 'P09 P10 P11 P36'), ('event_log_split.py', 'P07'),
    ('event_log_analysis_canvas.py', 'P28 P33'), ('event_log_analysis.py', 'P25 P26 P35 P36'), ('event_log_patterns.py', 'P13 P14 P15 P16 P17 P18 P19 P21 P22 P20 P36'),
    ('patterns_graphs.py', 'P22 P24 P36'), ('patterns/util.py', 'P16 P17 P18 P21 P36 P13 P22'), ('patterns_models.py', 'P16 P17 P22 P19 P36'), ('common_models.py', 'P22 P16 P13'),
    ('discovery/graph.py', 'P27 P30 P33'), ('discovery/petri_net.py', 'P27 P30 P33'), ('pipelines/pipelines.py', 'P23'), ('pipelines/common.py', 'P23 P25'),
    ('pipelines/analysis/high_level.py', 'P20 P23 P36 P21'), ('analysis_parts.py', 'P36 P25 P23 P24'), ('grpc_pipelines/patterns_parts.py', 'P31'), ('patterns_parts.py', 'P16 P17 P18 P19 P20 P21 P22 P36 P25 P13 P24'),
    ('contexts/', 'P23 P26 P20'), ('legacy/pipelines/discovery', 'P29'), ('grpc_pipelines/discovery_parts', 'P31 P33 P27 P30'), ('filter_parts.py', 'P12 P06 P07'), ('mutations_parts.py', 'P08 P07 P06'), ('serialization/', 'P01 P05 P36'),
    ('start/', 'P02 P23 P05'), ('grpc_pipelines/context_values.py', 'P30 P33'), ('grpc_pipelines/grpc_pipelines.py', 'P31 P32 P33'),
    ('grpc_pipelines/models', 'P34 P30 P32'), ('grpc_pipelines/', 'P31 P33 P32'),
]
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Mod: '+'}


def mutants(path):
    src = open(path, encoding='utf-8').read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    tree = ast.parse(src)
    pos = lambda ln, col: starts[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))]
    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, a, b, new))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.AnnAssign, ast.arg)) and getattr(n, 'annotation', None) is not None:
            skip |= set(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= set(map(id, ast.walk(n.returns)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            put(n, f'{text(n.left)} {SWAP[type(n.ops[0])]} {text(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            put(n, f'{text(n.left)} {BIN[type(n.op)]} {text(n.right)}', 'arith')
        elif isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({text(v)})' for v in n.values), 'bool')
            put(n, text(n.values[0]), 'first of bool')
            put(n, text(n.values[-1]), 'last of bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f'({text(n.operand)})', 'not')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'flip')
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), 'plus one')
            elif isinstance(n.value, str) and n.value and src[span(n)[0]] in '"\'' :
                put(n, repr(n.value + 'Q'), 'text')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'delete assign')
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if true'), put(n.test, 'False', 'if false')
        elif isinstance(n, ast.IfExp):
            put(n, text(n.body), 'then'), put(n, text(n.orelse), 'else')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, 'None', 'return none')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    while src[b] in ' \n':
                        b += 1
                    if src[b] == ',':
                        b += 1
                    out.append((k.lineno, f'drop {k.arg}', a, b, ''))
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'deepcopy') and len(n.args) == 1:
                put(n, text(n.args[0]), 'no copy')
            if isinstance(f, ast.Name) and f.id in ('sorted', 'set', 'list', 'reversed', 'dict') and n.args:
                put(n, text(n.args[0]), 'no ' + f.id)
    res = []
    for ln, what, a, b, new in sorted(set(out)):
        m = src[:a] + new + src[b:]
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            continue
        res.append((ln, what, src[a:b], new, m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'), ap.add_argument('--every', type=int, default=1), ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--only', default=''), ap.add_argument('--jobs', type=int, default=2), ap.add_argument('--list', action='store_true')
    ap.add_argument('--again', help='rerun the survivors of this earlier output')
    a = ap.parse_args()
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', SRC], capture_output=True, text=True).stdout.split()
    todo = []
    for f in files:
        if not f.endswith('.py') or '_pb2' in f or a.only not in f:
            continue
        for k, m in enumerate(mutants('/repo/' + f)):
            todo.append((f, k) + m)
    todo = todo[a.offset::a.every]
    if a.again:
        keep = {(j['file'], j['line'], j['what'], j['new']) for j in map(json.loads, open(a.again)) if j['result'] == 'SURVIVED'}
        todo = [t for t in todo if (t[0], t[2], t[3], t[5][:200]) in keep]
    if os.path.exists(a.out):
        done = {(j['file'], j['line'], j['what'], j['new']) for j in map(json.loads, open(a.out))}
        todo = [t for t in todo if (t[0], t[2], t[3], t[5][:200]) not in done]
    print(len(todo), 'mutants')
    if a.list:
        return

    def one(t):
        f, k, ln, what, old, new, src = t
        props = next((c for s, c in CHECKS if s in f), 'P23 P24 P25 P36').split()
        d = tempfile.mkdtemp(prefix='ficus-mut-')
        res, by, t0 = 'SURVIVED', None, time.time()
        try:
            p = subprocess.Popen(['git', '-C', '/repo', 'archive', 'HEAD', 'src/python', 'protos'], stdout=subprocess.PIPE)
            subprocess.run(['tar', '-x', '-C', d], stdin=p.stdout, check=True)
            open(f'{d}/{f}', 'w', encoding='utf-8').write(src)
            for prop in props:
                try:
                    r = subprocess.run(['python3', 'check.py', prop], cwd=V, capture_output=True, text=True, timeout=300,
                                       env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', FICUS_REPO=d, FICUSMON_EVIDENCE=f'{d}/evidence'))
                except subprocess.TimeoutExpired:
                    res, by = 'TIMEOUT', prop
                    break
                if r.returncode:
                    res, by = ('KILLED' if r.returncode == 1 else f'RC{r.returncode}'), prop
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return dict(file=f, line=ln, what=what, old=old[:200], new=new[:200], result=res, by=by, secs=round(time.time() - t0))
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as o:
        for r in ex.map(one, todo):
            o.write(json.dumps(r) + '\n')
            o.flush()


main()

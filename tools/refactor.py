#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole code under test, to look for false alarms: each transformation is applied to every source file
of a scratch copy, the repository's tests are run there, then all checks must stay quiet.
Usage: refactor.py [--only NAME ...] [--checks P01 ...] [--seed N] [--notest]"""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/python/ficus'


class Base(ast.NodeTransformer):
    def __init__(self, seed):
        self.n, self.rng = 0, random.Random(seed)

    def name(self, p='tmp'):
        self.n += 1
        return f'_{p}_{self.n}'

    def block(self, stmts):
        return stmts

    def visit_body(self, node):
        self.generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node
    visit_FunctionDef = visit_If = visit_For = visit_While = visit_With = visit_Try = visit_body


class Noop(Base):
    """a statement that does nothing at the start of every function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(k, ast.parse(f'{self.name("unused")} = 0').body[0])
        return n


class TempReturn(Base):
    """return E -> tmp = E; return tmp; if C -> tmp = C; if tmp"""
    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = self.name('result')
                out += [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
            elif isinstance(s, ast.If) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                t = self.name('cond')
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.test))
                s.test = ast.Name(t, ast.Load())
                out.append(s)
            else:
                out.append(s)
        return out


class TempArgs(Base):
    """call arguments of expression statements go through temporaries, in order"""
    def block(self, stmts):
        out = []
        for s in stmts:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
            if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in c.args) \
                    and not (isinstance(c.func, ast.Attribute) and any(isinstance(x, ast.Call) for x in ast.walk(c.func))) \
                    and not any(k.arg is None for k in c.keywords) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(c)):
                for i, a in enumerate(c.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda)):
                        t = self.name('arg')
                        out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                        c.args[i] = ast.Name(t, ast.Load())
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                        t = self.name('arg')
                        out.append(ast.Assign([ast.Name(t, ast.Store())], k.value))
                        k.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class ForWhile(Base):
    """for x in E: B -> it = iter(E); while True: try x = next(it) except StopIteration: break; B"""
    def visit_For(self, n):
        self.visit_body(n)
        if n.orelse:
            return n
        t = self.name('it')
        pre = ast.parse(f'{t} = iter(None)').body[0]
        pre.value.args = [n.iter]
        w = ast.parse(f'while True:\n    try:\n        x = next({t})\n    except StopIteration:\n        break').body[0]
        w.body[0].body[0].targets = [n.target]
        w.body += n.body
        return [pre, w]


class RangeFor(Base):
    """for i in range(n) -> while with an index (when the index is not assigned and no continue)"""
    def visit_For(self, n):
        self.visit_body(n)
        if n.orelse or not isinstance(n.target, ast.Name) or not (isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') == 'range' and len(n.iter.args) < 3):
            return n
        if any(isinstance(x, ast.Continue) or isinstance(x, (ast.FunctionDef, ast.Lambda)) or (isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store))
               for b in n.body for x in ast.walk(b)):
            return n
        a = [ast.Constant(0)] * (2 - len(n.iter.args)) + n.iter.args
        e, k = self.name('end'), self.name('index')
        pre = [ast.Assign([ast.Name(k, ast.Store())], a[0]), ast.Assign([ast.Name(e, ast.Store())], a[1])]
        w = ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), [ast.Assign([n.target], ast.Name(k, ast.Load()))] + n.body +
                      [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])
        return pre + [w]


class CompLoop(Base):
    """x = [E for ...] and return [E for ...] -> loops with append"""
    def block(self, stmts):
        out = []
        for s in stmts:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and not any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(v)):
                t = self.name('items')
                # new names for the loop variables keep outer ones alone
                names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                m = {x: self.name(x.strip('_') or 'x') for x in names}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                body = [ast.parse(f'{t}.append(None)').body[0]]
                body[0].value.args = [v.elt]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                out.append(ast.parse(f'{t} = []').body[0])
                out += body
                s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class SwapIf(Base):
    """if C: A else: B -> if not C: B else: A; a if c else b too"""
    def visit_If(self, n):
        self.visit_body(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class SwapCompare(Base):
    """a < b -> b > a; a == b -> not a != b is not the same for user types, so only order comparisons"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        simple = lambda x: isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) or (isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'len')
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and simple(n.left) and simple(n.comparators[0]):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Rename(Base):
    """locals that are only assigned and used in one function get other names"""
    def visit_FunctionDef(self, n):
        inner = [x for b in n.body for x in ast.walk(b)]
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef, ast.AsyncFunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in inner):
            self.generic_visit(n)
            return n
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        local = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in inner:
            if isinstance(x, ast.Name) and x.id in local:
                x.id = 'renamed_' + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in local:
                x.name = 'renamed_' + x.name
        return n


class Outer(Base):
    """module functions delegate to an extracted helper with the same body"""
    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                h = copy.deepcopy(n)
                h.name = '_do_' + n.name + '_impl'
                a = n.args
                call = [x.arg for x in a.posonlyargs + a.args] + (['*' + a.vararg.arg] if a.vararg else []) + [f'{x.arg}={x.arg}' for x in a.kwonlyargs] + (['**' + a.kwarg.arg] if a.kwarg else [])
                n.body = ast.parse(f'return {h.name}({", ".join(call)})').body
                out += [h, n]
            else:
                out.append(n)
        m.body = out
        return m


class Methods(Base):
    """method bodies move to a private method of the class; methods are listed in reverse order"""
    def visit_ClassDef(self, c):
        fs = [n for n in c.body if isinstance(n, ast.FunctionDef)]
        if any(n.decorator_list for n in fs) or any(isinstance(b, ast.Name) and b.id in ('Enum', 'Protocol', 'NamedTuple') for b in c.bases) or c.decorator_list:
            return c
        out = [n for n in c.body if not isinstance(n, ast.FunctionDef)]
        for n in reversed(fs):
            uses = any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(n))
            if not uses and not n.name.startswith('__') and n.args.args and n.args.args[0].arg == 'self' and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) \
                    and not re.search(r'__[a-zA-Z]', ast.unparse(n)):
                h = copy.deepcopy(n)
                h.name = f'_impl_of_{n.name}_{c.name}'
                a = n.args
                call = [x.arg for x in a.posonlyargs + a.args][1:] + (['*' + a.vararg.arg] if a.vararg else []) + [f'{x.arg}={x.arg}' for x in a.kwonlyargs] + (['**' + a.kwarg.arg] if a.kwarg else [])
                n.body = ast.parse(f'return self.{h.name}({", ".join(call)})').body
                out += [n, h]
            else:
                out.append(n)
        c.body = out or [ast.Pass()]
        return c


class Fstring(Base):
    """f'..{x}..' -> ''.join of pieces"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(ast.parse('format(0)').body[0].value)
                parts[-1].args = [v.value]
            else:
                return n
        r = ast.parse("''.join([])").body[0].value
        r.args[0].elts = parts
        return r


class AugPlain(Base):
    """x += e on names and numbers stays; d[k] = d.get.. untouched; elif chains become nested ifs with pass; 'not in' -> not (in)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot)):
            o = ast.In() if isinstance(n.ops[0], ast.NotIn) else ast.Is()
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [o], n.comparators))
        return n

    def visit_BoolOp(self, n):
        # a and b -> b if a else a has the same value when a is evaluated twice; only for plain names
        self.generic_visit(n)
        return n


class EarlyReturn(Base):
    """if C: ...return; rest -> if C: ... else: rest"""
    def block(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and stmts[i + 1:]:
                s.orelse = self.block(stmts[i + 1:])
                return stmts[:i + 1]
        return stmts


class Append(Base):
    """xs.append(e) as a statement -> xs.extend([e]) for plain names of local lists"""
    def visit_FunctionDef(self, n):
        local = {t.id for x in ast.walk(n) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.ListComp)) for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(n):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' \
                    and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id in local and len(x.value.args) == 1:
                x.value.func.attr = 'extend'
                x.value.args = [ast.List(x.value.args, ast.Load())]
        return n


class KwOrder(Base):
    """keyword arguments of calls in reverse order (when they are plain)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if n.keywords and all(k.arg for k in n.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords):
            n.keywords.reverse()
        return n


ALL = [Noop, TempReturn, TempArgs, ForWhile, RangeFor, CompLoop, SwapIf, SwapCompare, Rename, Outer, Methods, Fstring, AugPlain, EarlyReturn, Append, KwOrder]


def run(cls, args):
    d = tempfile.mkdtemp(prefix='refactor-')
    try:
        repo = f'{d}/repo'
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
        changed = 0
        for root, _, fs in os.walk(f'{repo}/{SRC}'):
            for f in fs:
                p = f'{root}/{f}'
                if not f.endswith('.py') or f.endswith(('_pb2.py', '_pb2_grpc.py')):
                    continue
                old = ast.parse(open(p, encoding='utf-8').read())
                tree = cls(args.seed).visit(copy.deepcopy(old))
                new = ast.unparse(ast.fix_missing_locations(tree))
                if new != ast.unparse(old):
                    changed += 1
                    open(p, 'w', encoding='utf-8').write(new + '\n')
        head = f'{cls.__name__} ({changed} files)'
        if not args.notest:
            b = json.load(open('/opt/vp/BASELINE.json'))
            env = {**os.environ, 'PYTHONPATH': f'{repo}/src', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1'}
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--no-header', '--continue-on-collection-errors', '-p', 'no:cacheprovider', 'tests', '--ignore=tests/grpc_pipelines'],
                               cwd=f'{repo}/src/python', env=env, capture_output=True, text=True)
            print(head, 'tests:', r.stdout.strip().split('\n')[-1], flush=True)
        props = args.checks or [p['id'] for p in map(json.loads, open(f'{V}/properties.jsonl'))]

        def one(p):
            r = subprocess.run([sys.executable, f'{V}/check.py', p, '--tier', 'quick', '--seed', '1'], capture_output=True, text=True,
                               env={**os.environ, 'FICUS_REPO': repo, 'FICUSMON_EVIDENCE': f'{d}/ev'})
            if r.returncode:
                print(f'  ALARM {cls.__name__} {p} exit {r.returncode}: {(r.stdout + r.stderr)[-600:]}', flush=True)
            return r.returncode
        with ThreadPoolExecutor(args.jobs) as ex:
            res = list(ex.map(one, props))
        print(head, 'quiet' if not any(res) else f'{sum(map(bool, res))} ALARMS', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = argparse.ArgumentParser()
a.add_argument('--only', nargs='*')
a.add_argument('--checks', nargs='*')
a.add_argument('--seed', type=int, default=1)
a.add_argument('--jobs', type=int, default=2)
a.add_argument('--notest', action='store_true')
a = a.parse_args()
for c in ALL:
    if not a.only or c.__name__ in a.only:
        run(c, a)

#!/usr/bin/env python3
"""Automatic mutation testing of the checks of the Rust backend: small textual changes, each built and run in a scratch copy
against the checks that look at that file until one catches it (tests are not run: survivors are reviewed by hand).
Usage: mutate_rust.py OUT.jsonl [--seed N] [--count N] [--only SUBSTRING] [--jobs J]"""
import argparse, json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FICUS_REPO', '/repo')
SRC = 'src/rust/ficus_backend/src'
CHECKS = [
    ('event_log/bxes', 'P49'), ('event_log/xes', 'P42 P49'), ('event_log/core', 'P42 P39 P49 P45 P46'), ('event_log/simple', 'P42 P39 P46'),
    ('analysis/patterns', 'P37 P38 P46'), ('analysis', 'P39 P45'), ('mutations', 'P39 P45'), ('discovery/alpha', 'P40 P47'),
    ('discovery/petri_net', 'P41 P47'), ('discovery', 'P44 P47'), ('clustering', 'P48'), ('grpc/converters', 'P45 P46 P47 P48'), ('grpc', 'P45 P46'),
    ('pipelines/activities', 'P46 P48'), ('pipelines/patterns', 'P46 P45'), ('pipelines/discovery', 'P47'), ('pipelines/annot', 'P47'),
    ('pipelines/drawing', 'P46 P45'), ('pipelines/xes', 'P49'), ('pipelines/keys', 'P45 P46 P47 P48 P49'), ('pipelines', 'P45 P46 P49'),
    ('utils', 'P43 P37 P46 P48 P45'),
]
SWAPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
         (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' / ', ' * '), (' += ', ' -= '), ('true', 'false'), ('false', 'true'), ('.min(', '.max('), ('.max(', '.min('),
         ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('if !', 'if '), ('.rev()', ''), ('continue;', ''), ('break;', ''), (' + 1', ''), (' - 1', ''),
         ('..=', '..'), ('.skip(1)', ''), ('return None;', ''), ('.any(', '.all('), ('.all(', '.any(')]


def mutants(rel):
    text = open(f'{REPO}/{SRC}/{rel}').read()
    out, at = [], 0
    for n, line in enumerate(text.splitlines(keepends=True)):
        code = line.split('//')[0]
        s = code.strip()
        if s and not s.startswith(('use ', '#', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'fn ', 'pub fn', 'type', 'pub type', 'trait', 'pub trait')):
            for old, new in SWAPS:
                for m in re.finditer(re.escape(old), code):
                    if old.strip() in '+-' and ("'" in code[m.end():m.end() + 2] or 'dyn' in code or 'impl' in code):
                        continue
                    if old in ('true', 'false') and re.match(r'\w', code[m.end():m.end() + 1] or ' '):
                        continue
                    out.append((at + m.start(), at + m.end(), new, n + 1, f'{old.strip()} -> {new.strip()}'))
            for m in re.finditer(r'(?<![\w.])([0-9]+)(?![\w.])', code):
                out.append((at + m.start(1), at + m.end(1), str(int(m[1]) + 1), n + 1, f'{m[1]} -> {int(m[1]) + 1}'))
            if s.endswith(';') and not s.startswith(('let', 'return', 'break', 'continue', 'static', 'const', '}', ')', '.', 'pub')) and s.count('(') == s.count(')') and re.match(r'[\w*&.\[\]()]+', s):
                out.append((at + len(line) - len(line.lstrip()), at + len(code.rstrip()), '', n + 1, 'statement removed'))
            m = re.match(r'\s*(?:\} else )?if (?!let)(.*) \{\s*$', code)
            if m:
                out.append((at + m.start(1), at + m.end(1), f'false && ({m[1]})', n + 1, 'condition false'))
                out.append((at + m.start(1), at + m.end(1), f'true || ({m[1]})', n + 1, 'condition true'))
        at += len(line)
    return [(rel, text, *x) for x in out]


def one(job):
    rel, text, a, b, new, line, what = job
    d = tempfile.mkdtemp(prefix='ficus-mutr-')
    start = time.time()
    result, by = 'SURVIVED', ''
    try:
        for part in ('src/python', 'src/rust', 'protos'):
            shutil.copytree(f'{REPO}/{part}', f'{d}/{part}', ignore=shutil.ignore_patterns('target', '__pycache__'))
        with open(f'{d}/{SRC}/{rel}', 'w') as f:
            f.write(text[:a] + new + text[b:])
        for p in next(c for k, c in CHECKS if k in rel).split():
            r = subprocess.run(['python3', 'check.py', p, '--tier', 'quick'], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED='1', FICUS_REPO=d, FICUSMON_EVIDENCE=f'{d}/evidence'))
            if r.returncode == 1:
                result, by = 'KILLED', p
                break
            if r.returncode:
                result, by = ('UNBUILT' if 'does not build' in r.stdout + r.stderr else 'NOANSWER'), p
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bol = text.rfind('\n', 0, a) + 1
    eol = text.find('\n', a)
    return dict(result=result, by=by, file=rel, line=line, what=what, old=text[bol:eol].strip(), seconds=round(time.time() - start))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--count', type=int, default=100)
    ap.add_argument('--only', default=''); ap.add_argument('--jobs', type=int, default=3)
    a = ap.parse_args()
    jobs = []
    for base, _, files in sorted(os.walk(f'{REPO}/{SRC}')):
        for f in sorted(files):
            rel = os.path.relpath(f'{base}/{f}', f'{REPO}/{SRC}')
            if f.endswith('.rs') and a.only in rel and any(k in rel for k, _ in CHECKS) and 'performance' not in rel:
                jobs += mutants(rel)
    random.Random(a.seed).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as f:
        for r in ex.map(one, jobs[:a.count]):
            f.write(json.dumps(r) + '\n'); f.flush()
            print(r['result'], r['by'], r['file'], r['line'], r['what'], '|', r['old'][:110], f"{r['seconds']}s", flush=True)

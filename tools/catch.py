#!/usr/bin/env python3
"""Runs the check of its property (or all with --all) against a scratch copy of /repo with each planted bug applied; also
--patch FILE PROP...: any patch.  Writes seeded results to stdout: CAUGHT/MISSED."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
every = '--all' in sys.argv
claimed = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]


def scratch():
    d = tempfile.mkdtemp(prefix='ficus-catch-')
    a = subprocess.Popen(['git', '-C', '/repo', 'archive', 'HEAD', 'src/python', 'src/rust', 'protos'], stdout=subprocess.PIPE)
    subprocess.run(['tar', '-x', '-C', d], stdin=a.stdout, check=True)
    return d


def one(i):
    m = f'{V}/seeded/{i}'
    if i.endswith('.diff'):
        patch, props, prop = i, claimed if every else PROPS, (PROPS or ['?'])[0]
    else:
        patch, prop = f'{m}/patch.diff', json.load(open(f'{m}/meta.json'))['property']
        props = claimed if every else [prop]
    d = scratch()
    first = ''
    try:
        r = subprocess.run(['git', 'apply', '--unsafe-paths', f'--directory={d}', patch], cwd='/', capture_output=True, text=True)
        if r.returncode:
            return f'{i} DOES NOT APPLY {r.stderr[-200:]}'
        hits, dt = [], 0
        for p in props:
            t = time.time()
            r = subprocess.run(['python3', 'check.py', p, '--tier', tier], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier, FICUS_REPO=d, FICUSMON_EVIDENCE=f'{d}/evidence'))
            if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout:
                hits.append(p)
            elif r.returncode != 0:
                hits.append(f'{p}:rc{r.returncode}')
            if p == prop or (not first and p in hits):
                first = r.stdout.strip().splitlines()[0][:160] if r.stdout.strip() else r.stderr[-200:]
                dt = time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f"{'CAUGHT' if prop in hits else 'MISSED'} {i} {prop} {dt:.0f}s {hits if every or len(props) > 1 else ''} | {first}"


PROPS = []
if '--patch' in sys.argv:
    PROPS = [a for a in args if re.fullmatch(r'P\d\d', a)]
    args = [a for a in args if a not in PROPS]
with ThreadPoolExecutor(3) as ex:
    for line in ex.map(one, args or sorted(os.listdir(f'{V}/seeded'))):
        print(line, flush=True)

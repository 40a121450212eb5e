#!/usr/bin/env python3
"""Brings what planted bugs carry with them (stand-ins, drivers) up to date and validates every demo on the unchanged tree and
with its patch, in scratch copies of /repo.  Usage: replant.py [id...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{V}/tools')
from plant import own_lines  # noqa: E402


def refresh(d):
    if os.path.exists(f'{d}/rust'):
        service = os.path.exists(f'{d}/servicedemo.py')
        shutil.rmtree(f'{d}/rust')
        shutil.copytree(f'{V}/rust', f'{d}/rust', ignore=shutil.ignore_patterns('harness') if service else None)
        name = 'servicedemo.py' if service else 'rustdemo.py'
        shutil.copy(f'{V}/tools/{name}', d)
        for m in os.listdir(f'{d}/ficusmon') if service else ():
            if m.endswith('.py'):
                shutil.copy(f'{V}/ficusmon/{m}', f'{d}/ficusmon')


def one(i):
    d = f'{V}/seeded/{i}'
    refresh(d)
    work = tempfile.mkdtemp(prefix='ficus-replant-')
    try:
        shutil.rmtree(work)
        shutil.copytree('/repo', work, symlinks=True)
        a = subprocess.run(['bash', f'{d}/demo.sh'], cwd=work, capture_output=True, text=True)
        p = subprocess.run(['git', 'apply', f'{d}/patch.diff'], cwd=work, capture_output=True, text=True)
        b = subprocess.run(['bash', f'{d}/demo.sh'], cwd=work, capture_output=True, text=True)
        own = own_lines(open(f'{d}/patch.diff').read())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ok = a.returncode == 0 and p.returncode == 0 and b.returncode != 0 and 'Inconclusive' not in b.stderr and not own
    return f"{'OK' if ok else 'BROKEN'} {i} clean={a.returncode} apply={p.returncode} patched={b.returncode} own={own}" + ('' if ok else '\n' + (a.stderr if a.returncode else p.stderr or b.stderr)[-300:])


with ThreadPoolExecutor(6) as ex:
    for line in ex.map(one, sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))):
        print(line, flush=True)

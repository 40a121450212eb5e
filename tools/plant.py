#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy and writes /verif/seeded/<id>/.  Usage: plant.py SPEC.py [id...]
SPEC defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo=python source, needs, breaks)}; file is relative to
/repo/src/python/ficus (or absolute from the repo root when it starts with '/')."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONPATH="$PWD/src"
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def tests(work):
    # the suite of the scratch copy
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig')
    g = 'tests/grpc_pipelines'
    ig = [f'--ignore={g}/test_{m}.py' for m in 'alpha_discovery alpha_plus_discovery alpha_plus_plus_discovery alpha_plus_plus_nfc_discovery clustering dfg_discovery filtering_pipelines grpc_pipelines heuristic_discovery patterns_pipelines'.split()]
    x = f'{work}-junit.xml'
    run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', f'--rootdir={work}/src/python', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={x}', *ig, 'tests'], cwd=f'{work}/src/python', env=env)
    run(['python3', '/opt/vp/results.py', x + '.json', f'junit:{x}'])
    got = set(json.load(open(x + '.json'))['passed'])
    os.remove(x), os.remove(x + '.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    base = b.get('stable') or b.get('passed')
    missing = [t for t in base if t not in got]
    return len(missing), str(missing[:5])


def own_lines(diff):
    """Removed lines that are not of the original repository."""
    n, cur, ln = [], None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            ln = int(l.split('-')[1].split(',')[0].split()[0])
        elif l.startswith(('+++', 'diff', 'index', '+', chr(92))):
            pass
        else:
            if l.startswith('-'):
                o = run(['git', '-C', '/repo', 'blame', f'-L{ln},{ln}', '--porcelain', '--', cur]).stdout.split()[0]
                if run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', o, 'a9041e6']).returncode:
                    n.append((cur, ln))
            ln += 1
    return n


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for bid in sys.argv[2:] or bugs:
        b = bugs[bid]
        work = f'/tmp/plant-{os.getpid()}-{bid}'
        shutil.copytree('/repo', work, symlinks=True)
        run(['git', 'checkout', '-q', '--', '.'], cwd=work)
        try:
            out = f'/tmp/plantout-{bid}'
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(f'{out}/demo.py', 'w').write(b['demo'].lstrip())
            open(f'{out}/demo.sh', 'w').write(DEMO_SH)
            if 'rustdemo' in b['demo']:
                shutil.copy(f'{V}/tools/rustdemo.py', out)
                shutil.copytree(f'{V}/rust', f'{out}/rust')
            if 'servicedemo' in b['demo']:
                shutil.copy(f'{V}/tools/servicedemo.py', out)
                shutil.copytree(f'{V}/rust', f'{out}/rust', ignore=shutil.ignore_patterns('harness'))
                os.makedirs(f'{out}/ficusmon')
                for m in '__init__ env core rust service wire protorust'.split():
                    shutil.copy(f'{V}/ficusmon/{m}.py', f'{out}/ficusmon')
            r0 = run(['bash', f'{out}/demo.sh'], cwd=work)
            for f, old, new in b['edits']:
                path = work + f if f.startswith('/') else f'{work}/src/python/ficus/{f}'
                s = open(path).read()
                assert s.count(old) == 1, (bid, f, s.count(old), old)
                open(path, 'w').write(s.replace(old, new))
            diff = run(['git', 'diff'], cwd=work).stdout
            open(f'{out}/patch.diff', 'w').write(diff)
            own = own_lines(diff)
            r1 = run(['bash', f'{out}/demo.sh'], cwd=work)
            rc, log = tests(work)
            ok = r0.returncode == 0 and r1.returncode != 0 and rc == 0 and not own
            print(bid, b['prop'], 'OK' if ok else 'REJECTED', f'clean={r0.returncode} patched={r1.returncode} tests={rc} own={own}')
            if not ok:
                print((r0.stdout + r0.stderr)[-800:] if r0.returncode else '', log if rc else '')
                continue
            print('   ', (r1.stderr.strip().splitlines() or ['?'])[-1][:150])
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
            shutil.rmtree(f'{V}/seeded/{bid}', ignore_errors=True)
            shutil.copytree(out, f'{V}/seeded/{bid}')
        finally:
            shutil.rmtree(work, ignore_errors=True)
            shutil.rmtree(f'/tmp/plantout-{bid}', ignore_errors=True)


if __name__ == '__main__':
    main()

"""Process environment for every check: the same interpreter flags as the repository's
own test run, bytecode writing off (the check must leave /repo as it found it)."""
import os
import sys

REPO = os.environ.get('FICUS_REPO', '/repo')
PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('FICUSMON_EVIDENCE') or os.path.join(VERIF, 'evidence')

WANTED = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'MPLBACKEND': 'Agg',
    'GRPC_VERBOSITY': 'NONE',
    'no_proxy': '*',
    'grpc_proxy': '', 'http_proxy': '', 'https_proxy': '',
    'GRPC_ENABLE_FORK_SUPPORT': '0',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'LOKY_MAX_CPU_COUNT': '1',
}


def reexec_if_needed(script):
    if os.environ.get('FICUSMON_CHILD') == '1':
        return
    env = dict(os.environ)
    env.update(WANTED)
    if os.environ.get('FICUSMON_HASHSEED'):
        env['PYTHONHASHSEED'] = os.environ['FICUSMON_HASHSEED']
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONUTF8', None)
    if os.path.isdir('/opt/venv/mplconfig'):
        env.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    env['FICUSMON_CHILD'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, script] + sys.argv[1:], env)


def setup_path():
    for p in (os.path.join(REPO, 'src'), os.path.join(REPO, 'src', 'python')):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)

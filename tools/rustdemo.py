"""Builds the Rust backend of the current directory's repository with the stand-ins beside this file, and asks it."""
import json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'rust', 'ficus_backend', 'src')
STUBS = os.path.join(HERE, 'rust', 'stubs')
base = os.path.abspath('ws')
src = os.path.join(base, 'sut', 'src')
os.makedirs(src)
for part, gone in (('event_log', 'bxes'), ('features', 'clustering'), ('utils', None)):
    shutil.copytree(os.path.join(SRC, part), os.path.join(src, part))
    if gone:
        shutil.rmtree(os.path.join(src, part, gone), ignore_errors=True)
        p = os.path.join(src, part, 'mod.rs')
        text = open(p).read()
        open(p, 'w').write(re.sub(rf'^\s*(pub(\([^)]*\))?\s+)?mod\s+{gone}\s*;', '', text, flags=re.M))
os.makedirs(os.path.join(src, 'pipelines'))
shutil.copy(os.path.join(SRC, 'pipelines', 'aliases.rs'), os.path.join(src, 'pipelines'))
open(os.path.join(src, 'lib.rs'), 'w').write('pub mod event_log;\npub mod features;\npub mod utils;\npub mod pipelines {\n    pub mod aliases;\n}\n')
deps = ''.join(f'{c} = {{ path = "{STUBS}/{c}" }}\n' for c in sorted(os.listdir(STUBS)) if c in
               ('chrono', 'quick-xml', 'lazycell', 'stopwatch', 'fancy-regex', 'linfa-nn', 'ndarray', 'uuid'))
open(os.path.join(base, 'sut', 'Cargo.toml'), 'w').write(
    '[package]\nname = "ficus_backend"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + deps + 'rand = "0.8"\nonce_cell = "1"\n')
shutil.copytree(os.path.join(HERE, 'rust', 'harness', 'src'), os.path.join(base, 'harness', 'src'))
open(os.path.join(base, 'harness', 'Cargo.toml'), 'w').write(open(os.path.join(HERE, 'rust', 'harness', 'Cargo.toml.in')).read().replace('@STUBS@', STUBS))
open(os.path.join(base, 'Cargo.toml'), 'w').write('[workspace]\nmembers = ["sut", "harness"]\nresolver = "2"\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n')
shutil.copy(os.path.join(HERE, 'rust', 'Cargo.lock'), base)
r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=base, env=dict(os.environ, CARGO_TARGET_DIR=base + '/target'), capture_output=True, text=True)
if r.returncode:
    sys.exit('does not build: ' + r.stderr[-1500:])
proc = subprocess.Popen([base + '/target/debug/ficus_harness'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=base)


def ask(op, **args):
    proc.stdin.write(json.dumps(dict(args, op=op)) + '\n')
    proc.stdin.flush()
    line = proc.stdout.readline()
    assert line, 'the backend died'
    out = json.loads(line)
    assert 'ok' in out, out
    return out['ok']

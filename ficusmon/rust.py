"""Runs the repository's Rust backend under the monitors.

`build(base)` copies the current Rust sources of /repo (event_log, features, utils) into scratch,
next to stand-ins for the third-party crates that are not in this sandbox (verif/rust/stubs), and
builds them with overflow and bounds checks on together with a line-oriented driver
(verif/rust/harness). `Harness.ask(op, ...)` sends one request to the driver process; a panic, a
crash, or a request that burns its CPU budget on a valid input is a violation."""
import json
import os
import re
import select
import shutil
import signal
import subprocess
import time

from . import env, protorust
from .core import Inconclusive, Violation, short

ROOT = os.path.join(env.VERIF, 'rust')
STUBS = os.path.join(ROOT, 'stubs')
SKIP = {'event_log': 'bxes', 'features': 'clustering'}
CPU_LIMIT = 40.0
MEMORY = 6 << 30


def source():
    return os.path.join(env.REPO, 'src', 'rust', 'ficus_backend', 'src')


def lay_out(base):
    """Workspace with the code under test (crate `ficus_backend`) and the driver."""
    src = os.path.join(base, 'sut', 'src')
    os.makedirs(src)
    for part in ('event_log', 'features', 'utils'):
        shutil.copytree(os.path.join(source(), part), os.path.join(src, part))
    for part, gone in SKIP.items():
        shutil.rmtree(os.path.join(src, part, gone), ignore_errors=True)
        path = os.path.join(src, part, 'mod.rs')
        with open(path) as f:
            text = f.read()
        with open(path, 'w') as f:
            f.write(re.sub(rf'^\s*(pub(\([^)]*\))?\s+)?mod\s+{gone}\s*;', '', text, flags=re.M))
    os.makedirs(os.path.join(src, 'pipelines'))
    shutil.copy(os.path.join(source(), 'pipelines', 'aliases.rs'), os.path.join(src, 'pipelines'))
    with open(os.path.join(src, 'lib.rs'), 'w') as f:
        f.write('pub mod event_log;\npub mod features;\npub mod utils;\npub mod pipelines {\n    pub mod aliases;\n}\n')
    deps = ''.join(f'{c} = {{ path = "{STUBS}/{c}" }}\n' for c in
                   ('chrono', 'quick-xml', 'lazycell', 'stopwatch', 'fancy-regex', 'linfa-nn', 'ndarray', 'uuid'))
    with open(os.path.join(base, 'sut', 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "ficus_backend"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                + deps + 'rand = "0.8"\nonce_cell = "1"\n')
    os.makedirs(os.path.join(base, 'harness'))
    shutil.copytree(os.path.join(ROOT, 'harness', 'src'), os.path.join(base, 'harness', 'src'))
    with open(os.path.join(ROOT, 'harness', 'Cargo.toml.in')) as f:
        text = f.read().replace('@STUBS@', STUBS)
    with open(os.path.join(base, 'harness', 'Cargo.toml'), 'w') as f:
        f.write(text)
    with open(os.path.join(base, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nmembers = ["sut", "harness"]\nresolver = "2"\n[profile.dev]\nopt-level = 1\ndebug = 0\n'
                'incremental = false\noverflow-checks = true\ndebug-assertions = true\n')
    shutil.copy(os.path.join(ROOT, 'Cargo.lock'), os.path.join(base, 'Cargo.lock'))


def lay_out_service(base):
    """Workspace with the whole backend (every module but main) and the driver of its gRPC service."""
    shutil.copytree(source(), os.path.join(base, 'sut', 'src'), ignore=shutil.ignore_patterns('main.rs', 'bin'))
    with open(os.path.join(base, 'sut', 'ficus.rs'), 'w') as f:
        f.write(protorust.generate(os.path.join(env.REPO, 'protos')))
    deps = ''.join(f'{c} = {{ path = "{STUBS}/{c}" }}\n' for c in
                   ('chrono', 'quick-xml', 'lazycell', 'stopwatch', 'fancy-regex', 'linfa-nn', 'ndarray', 'uuid', 'tonic',
                    'prost', 'prost-types', 'nameof', 'linfa', 'linfa-clustering', 'bxes', 'rustc-serialize'))
    with open(os.path.join(base, 'sut', 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "ficus_backend"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                + deps + 'rand = "0.8"\nonce_cell = "1"\ntokio = { version = "1", features = ["rt-multi-thread", "sync"] }\n'
                'tokio-stream = "0.1"\nfutures = "0.3"\n')
    os.makedirs(os.path.join(base, 'service'))
    shutil.copytree(os.path.join(ROOT, 'service', 'src'), os.path.join(base, 'service', 'src'))
    with open(os.path.join(ROOT, 'service', 'Cargo.toml.in')) as f:
        text = f.read().replace('@STUBS@', STUBS)
    with open(os.path.join(base, 'service', 'Cargo.toml'), 'w') as f:
        f.write(text)
    with open(os.path.join(base, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nmembers = ["sut", "service"]\nresolver = "2"\n[profile.dev]\nopt-level = 1\ndebug = 0\n'
                'incremental = false\noverflow-checks = true\ndebug-assertions = true\n')
    lock = os.path.join(ROOT, 'service', 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(base, 'Cargo.lock'))


def build_service(base):
    build(base, lay_out_service, 'ficus_service')


def build(base, lay_out=lay_out, binary='ficus_harness'):
    ws = os.path.join(base, 'rust')
    os.makedirs(ws)
    lay_out(ws)
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = os.path.join(ws, 'target')
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=ws, env=e, text=True, errors='replace',
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode:
        errors = [l for l in r.stdout.splitlines() if l.startswith('error')]
        raise Inconclusive('the Rust backend does not build: ' + '; '.join(errors[:5]) + '\n' + r.stdout[-2000:])
    global BINARY
    BINARY = os.path.join(ws, 'target', 'debug', binary)


BINARY = None


def prepare(base):
    build(base)


def _cpu(pid):
    with open(f'/proc/{pid}/stat') as f:
        parts = f.read().rsplit(')', 1)[1].split()
    return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')


class Harness:
    def __init__(self, mon):
        self.mon = mon
        self.proc = None
        self.requests = 0

    def start(self):
        import resource

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        self.proc = subprocess.Popen([BINARY], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, cwd=self.mon.scratch, preexec_fn=limits)
        self.buffer = b''

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def _line(self, cpu_limit, what, args):
        t0, start = time.monotonic(), _cpu(self.proc.pid)
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.proc.stdout], [], [], 1.0)
            if ready:
                chunk = os.read(self.proc.stdout.fileno(), 1 << 20)
                if not chunk:
                    code = self.proc.wait()
                    self.stop()
                    if code in (-signal.SIGKILL, -signal.SIGTERM):
                        raise Inconclusive(f'the backend process was ended by signal {-code}')
                    raise Violation(f'{what}: the backend crashed (exit status {code}) on a valid input',
                                    {'request': short(args, 3000)})
                self.buffer += chunk
                continue
            if _cpu(self.proc.pid) - start > cpu_limit:
                self.stop()
                raise Violation(f'{what} did not finish within {cpu_limit} s of processor time',
                                {'request': short(args, 3000)})
            if time.monotonic() - t0 > 300:
                self.stop()
                raise Inconclusive(f'{what}: no answer within 300 s')
        line, self.buffer = self.buffer.split(b'\n', 1)
        return line

    def raw(self, op, cpu_limit=CPU_LIMIT, **args):
        if self.proc is None:
            self.start()
        self.requests += 1
        self.mon.event('rust:' + op)
        data = json.dumps({'op': op, **args}, ensure_ascii=False).encode() + b'\n'
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except BrokenPipeError:
            code = self.proc.wait()
            self.stop()
            raise Inconclusive(f'the backend process ended between requests (status {code})')
        return json.loads(self._line(cpu_limit, op, args))

    def ask(self, op, cpu_limit=CPU_LIMIT, what=None, **args):
        answer = self.raw(op, cpu_limit, **args)
        if 'panic' in answer:
            if answer['panic'].startswith('harness:'):
                raise Inconclusive(answer['panic'])
            raise Violation(f'{what or op} panicked: {answer["panic"]} on a valid input',
                            {'request': short(args, 3000)})
        return answer['ok']


H = None


def worker_start(mon):
    global H
    H = Harness(mon)


def worker_end(mon):
    if H is not None:
        H.stop()

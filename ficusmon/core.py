"""Monitor engine.

A property module drives the real code with generated workloads (`run_case`) and reports what
its monitors observe through a `Monitor`:

  mon.event(kind)        one observation reached an oracle (counted per kind)
  mon.distinct(key)      identity of a non-trivial observed state/input (de-duplicated)
  mon.check(ok, msg, **witness)   the oracle's verdict on one observation
  mon.sample(obj)        a human readable example for the evidence file

Verdicts are three valued: violated (exit 1), held on what was observed (exit 0), or
inconclusive (exit 2: the deciding monitors were not reached, harness error, watchdog).
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

MAX_SAMPLES = 6


class Violation(Exception):
    def __init__(self, message, witness=None):
        super().__init__(message)
        self.message = message
        self.witness = witness or {}


class Inconclusive(Exception):
    pass


class StepBudgetExceeded(BaseException):
    """Raised by the step monitor inside the code under test."""


def short(obj, limit=1500):
    try:
        s = obj if isinstance(obj, str) else repr(obj)
    except Exception as e:  # a broken repr must not hide the verdict
        s = f'<unrepresentable {type(obj).__name__}: {e}>'
    return s if len(s) <= limit else s[:limit] + f'...(+{len(s) - limit} chars)'


class StepMonitor:
    """Counts loop iterations (backward jumps) and calls executed in the repository's code, by
    sys.monitoring. A run that exceeds its budget of *logical* steps is cut: that is how
    termination is decided, not by a clock."""

    TOOL = 4

    def __init__(self):
        self.steps = 0
        self.budget = None
        self.functions = set()
        self.active = False

    def install(self):
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, 'ficusmon')
        prefix = os.path.realpath(env.REPO) + os.sep

        def on_start(code, offset):
            if code.co_filename.startswith(prefix):
                self.functions.add((code.co_filename[len(prefix):], code.co_qualname))
                mon.set_local_events(self.TOOL, code, ev.JUMP | ev.PY_RESUME)
            return mon.DISABLE

        def on_jump(code, offset, dest):
            if dest > offset:
                return mon.DISABLE
            self.steps += 1
            if self.budget is not None and self.steps > self.budget:
                self.budget = None
                raise StepBudgetExceeded(f'{code.co_qualname} in {code.co_filename}')

        mon.register_callback(self.TOOL, ev.PY_START, on_start)
        mon.register_callback(self.TOOL, ev.JUMP, on_jump)
        mon.set_events(self.TOOL, ev.PY_START)
        self.active = True

    @contextlib.contextmanager
    def limit(self, budget):
        old = (self.steps, self.budget)
        self.steps, self.budget = 0, budget
        try:
            yield self
        finally:
            self.budget = old[1]
            self.steps += old[0]


class Monitor:
    def __init__(self, known):
        self.events = {}
        self.evaluations = 0
        self.distinct_keys = set()
        self.samples = []
        self.violations = []
        self.known = known          # mechanism -> description
        self.known_hits = {}
        self.case = None
        self.step = StepMonitor()
        self.out = io.StringIO()
        self.scratch = None
        self.tier = 'quick'

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def distinct(self, *key):
        h = hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.distinct_keys.add(h)

    def sample(self, obj):
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(short(obj, 400))

    def check(self, ok, message, mechanism=None, **witness):
        self.evaluations += 1
        if ok:
            return True
        if mechanism is not None and mechanism in self.known:
            self.known_hits[mechanism] = self.known_hits.get(mechanism, 0) + 1
            return False
        raise Violation(message, {k: short(v) for k, v in witness.items()})

    def equal(self, got, expected, message, **witness):
        return self.check(got == expected, message, got=got, expected=expected, **witness)

    def call(self, fn, *a, budget=20_000_000, what=None, **k):
        """Calls the code under test; an exception or a runaway loop on a valid input is a
        violation of the property being monitored."""
        name = what or getattr(fn, '__name__', type(fn).__name__)
        self.event('call:' + name.split('(')[0])
        try:
            with self.step.limit(budget):
                return fn(*a, **k)
        except StepBudgetExceeded as e:
            raise Violation(f'{name} did not finish within {budget} loop steps: stuck in {e}',
                            {'args': short(a), 'kwargs': short(k)})
        except Violation:
            raise
        except Inconclusive:
            raise
        except Exception as e:
            raise Violation(f'{name} raised {type(e).__name__}: {e} on a valid input',
                            {'args': short(a), 'kwargs': short(k),
                             'traceback': short(traceback.format_exc(), 3000)})


def load_known(prop):
    path = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['mechanism']: e['what'] for e in data.get('findings', []) if e['property'] == prop}


def case_rng(prop, seed, index):
    return random.Random(f'{prop}/{seed}/{index}')


def _through_repo(exc):
    prefix = os.path.realpath(env.REPO) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, mon, seed, index):
    mon.case = index
    rng = case_rng(mod.ID, seed, index)
    random.seed(f'{mod.ID}/{seed}/{index}/global')
    mon.out = io.StringIO()
    old_cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(mon.out), contextlib.redirect_stderr(io.StringIO()):
            try:
                mod.run_case(rng, index, mon)
            except (Violation, Inconclusive):
                raise
            except StepBudgetExceeded as e:
                raise Violation(f'step budget exceeded in {e}')
            except Exception as e:
                if _through_repo(e):
                    raise Violation(f'{type(e).__name__}: {e} escaped the code under test on a valid input',
                                    {'traceback': short(traceback.format_exc(), 3000)})
                if isinstance(e, (OSError, MemoryError, ImportError)):
                    raise
                raise Violation(f'the result of the code under test could not be interpreted: {type(e).__name__}: {e}',
                                {'traceback': short(traceback.format_exc(), 3000)})
    finally:
        os.chdir(old_cwd)
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is not None:
            plt.close('all')


def worker(mod, seed, tier, indices, wid, deadline, fd, base):
    result = {'violations': [], 'errors': [], 'done': 0}
    mon = Monitor(load_known(mod.ID))
    mon.tier = tier
    mon.scratch = os.path.join(base, f'w{wid}')
    os.makedirs(mon.scratch, exist_ok=True)
    os.chdir(mon.scratch)
    import warnings
    warnings.simplefilter('ignore')
    mon.step.install()
    try:
        if hasattr(mod, 'worker_start'):
            mod.worker_start(mon)
        for i in indices:
            if time.monotonic() > deadline:
                break
            try:
                run_one(mod, mon, seed, i)
                result['done'] += 1
            except Violation as v:
                result['violations'].append({'index': i, 'message': v.message, 'witness': v.witness})
                if len(result['violations']) >= 2:
                    break
            except Inconclusive as e:
                result['errors'].append(f'case {i}: inconclusive: {e}')
                break
        if hasattr(mod, 'worker_end'):
            mod.worker_end(mon)
    except BaseException as e:
        result['errors'].append(f'case {mon.case}: {type(e).__name__}: {e}\n{traceback.format_exc()}')
    result.update(events=mon.events, evaluations=mon.evaluations,
                  distinct=[d.hex() for d in mon.distinct_keys], samples=mon.samples,
                  known=mon.known_hits, functions=sorted(mon.step.functions), steps=mon.step.steps)
    data = json.dumps(result, default=str).encode()
    with os.fdopen(fd, 'wb') as f:
        f.write(data)


def run_property(prop, tier, seed, only=None):
    t0 = time.monotonic()
    env.setup_path()
    mod = importlib.import_module(f'ficusmon.props.{prop.lower()}')
    n = mod.CASES[tier]
    workers = 1 if only is not None else min(8, os.cpu_count() or 1, n)
    limit = float(os.environ.get('FICUSMON_TIME', '0')) or {'quick': 400, 'thorough': 780}[tier]
    deadline = t0 + limit
    base = tempfile.mkdtemp(prefix=f'ficusmon-{prop}-')
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        if hasattr(mod, 'prepare'):
            try:
                mod.prepare(base)
            except Exception as e:
                print(f'{prop}: INCONCLUSIVE: {type(e).__name__}: {e}')
                return 2
        for w in range(workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 1
                try:
                    if not os.environ.get('FICUSMON_DEBUG'):
                        devnull = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    idx = [only] if only is not None else range(w, n, workers)
                    worker(mod, seed, tier, idx, w, deadline, wfd, base)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, r))
        results, errors = [], []
        import select
        bufs = {r: [] for _, r in procs}
        open_fds = {r: pid for pid, r in procs}
        hard = deadline + 100
        while open_fds:
            ready, _, _ = select.select(list(open_fds), [], [], 5)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    bufs[fd].append(chunk)
                else:
                    os.close(fd)
                    del open_fds[fd]
            if time.monotonic() > hard and open_fds:
                for fd, pid in open_fds.items():
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGKILL)
                errors.append('watchdog: a worker did not report in time')
                break
        for pid, r in procs:
            _, status = os.waitpid(pid, 0)
            data = b''.join(bufs[r])
            if not data:
                errors.append(f'worker {pid} ended without a report (status {status})')
                continue
            results.append(json.loads(data))
    finally:
        shutil.rmtree(base, ignore_errors=True)

    events, distinct, samples, known, functions = {}, set(), [], {}, set()
    violations, done, evaluations, steps = [], 0, 0, 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        distinct.update(r['distinct'])
        samples.extend(r['samples'][:2])
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        functions.update(map(tuple, r['functions']))
        violations.extend(r['violations'])
        errors.extend(r['errors'])
        done += r['done']
        evaluations += r['evaluations']
        steps += r['steps']

    required = getattr(mod, 'REQUIRED_EVENTS', [])
    missing = [k for k in required if not events.get(k)] if only is None else []
    known_desc = load_known(prop)
    wall = time.monotonic() - t0

    if only is None:
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(distinct),
                'rule': mod.RULE,
                'samples': samples[:MAX_SAMPLES],
                'cases_planned': n, 'cases_run': done,
                'monitor_events': dict(sorted(events.items())),
                'loop_steps_observed': steps,
                'repo_functions_entered': len(functions),
                'repo_functions': [f'{f}:{q}' for f, q in sorted(functions)][:400],
            },
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'violations': len(violations),
            'known_findings_hit': known,
            'wall_s': round(wall, 2),
        }
        os.makedirs(env.EVIDENCE, exist_ok=True)
        with open(os.path.join(env.EVIDENCE, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)

    if only is None:
        for mech, what in sorted(known_desc.items()):
            print(f'KNOWN-FINDING: property={prop} {what}')
    if violations:
        violations.sort(key=lambda v: v['index'])
        v = violations[0]
        rp = os.path.join(env.EVIDENCE, f'replay-{prop}-{tier}-{seed}-{v["index"]}.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, **v,
                       'rerun': f'{env.PY} {env.VERIF}/check.py {prop} --tier {tier} --seed {seed} --case {v["index"]}'},
                      f, indent=1, ensure_ascii=False)
        print(f'{prop}: {v["message"]}')
        for k, val in v['witness'].items():
            print(f'  {k}: {val}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if errors:
        print(f'{prop}: INCONCLUSIVE')
        for e in errors[:3]:
            print('  ' + e)
        return 2
    if missing:
        print(f'{prop}: INCONCLUSIVE: monitors never reached: {missing}')
        return 2
    if only is None and done < max(1, int(n * 0.2)):
        print(f'{prop}: INCONCLUSIVE: only {done} of {n} cases ran in the time limit')
        return 2
    print(f'{prop}: held on {done} cases, {evaluations} oracle evaluations, {len(distinct)} distinct '
          f'non-trivial observations ({wall:.1f}s)')
    return 0

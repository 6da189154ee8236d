"""
Exhaustive, deviation-bounded exploration of executions of the real code,
spread over forked worker processes.
"""
import importlib
import importlib.abc
import importlib.util
import os
import pickle
import select
import signal
import struct
import sys
import gc
import traceback

from . import vrt

REPO = os.environ.get('VERIF_REPO', '/repo')

# ---------------------------------------------------------------------------
# Loading the code under test from /repo's working tree


class _Finder(importlib.abc.MetaPathFinder):
    """Imports aiuti and its submodules from source text only (no .pyc)."""

    def __init__(self):
        self.codes = {}

    def find_spec(self, name, path=None, target=None):
        if name != 'aiuti' and not name.startswith('aiuti.'):
            return None
        rel = name.split('.')
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_loader(
                name, _Loader(self, fn), origin=fn, is_package=True)
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_loader(name, _Loader(self, fn), origin=fn)
        return None


class _Loader(importlib.abc.Loader):
    def __init__(self, finder, fn):
        self.finder = finder
        self.fn = fn

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.finder.codes.get(self.fn)
        if code is None:
            with open(self.fn, 'rb') as f:
                code = compile(f.read(), self.fn, 'exec')
            self.finder.codes[self.fn] = code
            if self.finder.on_code:
                self.finder.on_code(code, self.fn)
        module.__file__ = self.fn
        exec(code, module.__dict__)


_finder = None
_instr = False


def install_repo(instructions=False):
    """Set up importing of the code under test with choice points."""
    global _finder
    vrt.install()
    sys.dont_write_bytecode = True
    if _finder is None:
        _finder = _Finder()

        def on_code(code, fn):
            if os.path.basename(fn) != '_version.py':
                vrt.monitor(code, _instr)

        _finder.on_code = on_code
        sys.meta_path.insert(0, _finder)
        for name in [n for n in sys.modules if n == 'aiuti' or n.startswith('aiuti.')]:
            del sys.modules[name]


def set_granularity(instructions):
    global _instr
    if instructions == _instr:
        return
    _instr = instructions
    for fn, code in _finder.codes.items():
        if os.path.basename(fn) != '_version.py':
            vrt.monitor(code, instructions)


def fresh(*names):
    """Re-execute the named aiuti modules; returns the fresh module objects."""
    if 'aiuti' not in sys.modules:
        try:
            importlib.import_module('aiuti')
        except Exception:  # noqa  (version lookup etc.)
            import types
            m = types.ModuleType('aiuti')
            m.__path__ = [os.path.join(REPO, 'aiuti')]
            sys.modules['aiuti'] = m
    keep = {'aiuti', 'aiuti._version', 'aiuti.typing'}
    for n in [n for n in sys.modules if n.startswith('aiuti.') and n not in keep]:
        del sys.modules[n]
    out = [importlib.import_module(n) for n in names]
    f = out[0].__file__
    if not f.startswith(os.path.join(REPO, 'aiuti') + os.sep):
        raise vrt.EngineError(f'aiuti imported from {f}')
    return out[0] if len(out) == 1 else out


# ---------------------------------------------------------------------------
# One execution

class Result:
    __slots__ = ('choices', 'nalts', 'costs', 'status', 'violations', 'outcome',
                 'steps', 'lines', 'switches', 'log', 'now', 'leaked', 'hung',
                 'divergence', 'info')


_exec_count = 0
STEPS = 15
STEPLOG = os.environ.get('VERIF_STEPLOG')       # for development

def run_one(scen, prefix=b'', log=False, expect=None):
    """Execute one schedule of a scenario on the real code."""
    global _exec_count
    _exec_count += 1
    opts = scen.opts
    set_granularity(opts.get('instr', False) if opts.get('lines', True) else None)
    vrt.reset_globals()
    if _exec_count % 40 == 0:
        gc.collect()
    lg = [] if log else None
    # far above what any program needs: how many steps a piece of code takes
    # depends on how it is written
    s = vrt.Sched(prefix, max_steps=STEPS * opts.get('max_steps', 20000),
                  horizon=opts.get('horizon', 1e6), stall=opts.get('stall', False),
                  free_block=opts.get('free_block', False), log=lg,
                  lines=opts.get('lines', True), expect=expect,
                  fair=opts.get('fair', 1500))
    scen.setup(s)
    hung = s.run(scen.root, wall=opts.get('wall', 150.0))
    if STEPLOG and s.steps > 0.02 * s.max_steps:
        with open(STEPLOG, 'a') as f:
            f.write(f'{s.steps / s.max_steps:.3f} {s.steps} {s.status} {getattr(scen, "spec", scen)!r:.300}\n')
    leaked = s.teardown()
    r = Result()
    r.choices = bytes(s.choices)
    r.nalts = bytes(min(n, 255) for n in s.nalts)
    r.costs = bytes(s.costs)
    r.status = s.status
    r.steps = s.steps
    r.lines = s.line_events
    r.switches = s.switches
    r.now = s.now
    r.leaked = leaked
    r.hung = hung
    r.log = lg
    r.divergence = s.engine_error
    r.info = None
    if s.engine_error:
        r.violations = []
        r.outcome = ('divergence',)
    else:
        root_exc = s.threads[0].exc
        try:
            r.violations = list(scen.check(s) or [])
            r.outcome = scen.outcome(s)
        except vrt.EngineError:
            raise
        except Exception:
            if root_exc is None:
                # Never happens with what the code does when it is right
                r.violations = ['what was observed makes no sense: ' + traceback.format_exc()]
            else:
                r.violations = []
            r.outcome = ('nonsense',)
        if root_exc is not None and not isinstance(root_exc, vrt.Abort):
            r.info = 'root raised ' + ''.join(traceback.format_exception(root_exc))
            if not getattr(scen, 'root_may_raise', False) and not r.violations:
                if isinstance(root_exc, (vrt.EngineError, OSError, MemoryError)) or 'new thread' in str(root_exc):
                    raise vrt.EngineError(f'harness failure in {scen!r}: {r.info}')
                # The harness expects every exception the code may raise
                r.violations = [f'unexpected exception: {root_exc!r}; {r.info}']
    scen.cleanup(s)
    return r


class Scenario:
    """Base class. Subclasses define setup/root/check/outcome."""
    opts = {}

    def setup(self, s):
        pass

    def root(self):
        raise NotImplementedError

    def check(self, s):
        return []

    def outcome(self, s):
        return ()

    def cleanup(self, s):
        pass


# ---------------------------------------------------------------------------
# Worker side

class Stats:
    """Aggregated, measured on this run."""

    def __init__(self):
        self.executions = 0
        self.nodes = 0
        self.steps = 0
        self.lines = 0
        self.switches = 0
        self.outcomes = set()
        self.violations = []
        self.divergences = 0
        self.leaked = 0
        self.statuses = {}
        self.max_dev = 0
        self.extra = {}
        self.samples = []
        self.unreproduced = []

    def merge(self, o):
        for k in ('executions', 'nodes', 'steps', 'lines', 'switches', 'divergences', 'leaked'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        if len(self.outcomes) < 200000:
            self.outcomes |= o.outcomes
        self.violations += o.violations
        self.unreproduced += o.unreproduced
        for k, v in o.statuses.items():
            self.statuses[k] = self.statuses.get(k, 0) + v
        self.max_dev = max(self.max_dev, o.max_dev)
        for k, v in o.extra.items():
            if isinstance(v, set):
                self.extra.setdefault(k, set()).update(v)
            else:
                self.extra[k] = self.extra.get(k, 0) + v
        if len(self.samples) < 40:
            self.samples += o.samples[:2]


def _deviations(choices, costs):
    return sum(1 for c, k in zip(choices, costs) if c and k)


def _h(x):
    import hashlib
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def _account(st, spec, r, plen):
    st.executions += 1
    st.nodes += len(r.choices) - plen + 1
    st.steps += r.steps
    st.lines += r.lines
    st.switches += r.switches
    st.leaked += r.leaked
    st.statuses[r.status] = st.statuses.get(r.status, 0) + 1
    st.outcomes.add(_h((spec, r.outcome)))
    st.max_dev = max(st.max_dev, _deviations(r.choices, r.costs))


def explore_job(make, job, budget):
    """Depth-first exploration of the subtrees below the job's prefixes.

    Returns (stats, leftover prefixes)."""
    spec, stack, bound = job
    st = Stats()
    stack = list(stack)
    n = 0
    while stack and n < budget:
        item = stack.pop()
        prefix, exp = item
        scen = make(spec)
        r = run_one(scen, prefix, expect=exp)
        n += 1
        if r.divergence:
            st.divergences += 1
            st.executions += 1
            st.samples.append({'divergence': r.divergence, 'spec': spec})
            continue
        _account(st, spec, r, len(prefix))
        if n == 1:
            st.samples.append({'scenario': spec, 'choices': list(r.choices[:60]),
                               'status': r.status, 'outcome': repr(r.outcome)[:300]})
        if r.violations:
            _confirm(make, spec, r, st)
            if r.hung:
                return st, [], True
            break
        if r.hung:
            st.violations.append((spec, r.choices, [f'execution does not terminate (status {r.status})'], None))
            return st, [], True
        # children
        base = 0
        costs = r.costs
        ch = r.choices
        for i in range(len(prefix)):
            if ch[i] and costs[i]:
                base += 1
        for i in range(len(ch) - 1, len(prefix) - 1, -1):
            if base + costs[i] > bound:
                continue
            for alt in range(r.nalts[i] - 1, 0, -1):
                stack.append((ch[:i] + bytes((alt,)), r.nalts[:i + 1]))
    return st, stack, False


def _confirm(make, spec, r, st):
    """Replay the schedule; only a reproducible violation is reported."""
    if r.hung:
        st.violations.append((spec, r.choices, r.violations, None))
        return
    gc.collect()
    r2 = run_one(make(spec), r.choices, log=True)
    if r2.hung:
        st.violations.append((spec, r.choices, r.violations, None))
        return
    if r2.violations and r2.choices == r.choices:
        st.violations.append((spec, r.choices, r2.violations, r2.log))
    else:
        st.unreproduced.append((spec, r.choices, r.violations, r2.violations))


def program_job(make, specs):
    """Run many specs, each with its default schedule only."""
    st = Stats()
    for k, spec in enumerate(specs):
        scen = make(spec)
        r = run_one(scen, b'')
        _account(st, spec, r, 0)
        if k == 0:
            st.samples.append({'program': spec, 'status': r.status,
                               'outcome': repr(r.outcome)[:300]})
        if r.violations:
            _confirm(make, spec, r, st)
            if r.hung:
                return st, [], True
            if len(st.violations) >= 3:
                break
        if r.hung:
            st.violations.append((spec, r.choices, [f'execution does not terminate (status {r.status})'], None))
            return st, [], True
    return st, [], False


# ---------------------------------------------------------------------------
# Pool of forked workers

def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    buf = b''
    while len(buf) < 8:
        c = os.read(fd, 8 - len(buf))
        if not c:
            return None
        buf += c
    n = struct.unpack('<Q', buf)[0]
    parts = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        parts.append(c)
        n -= len(c)
    return pickle.loads(b''.join(parts))


class Worker:
    def __init__(self, idx, handler):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                try:
                    cpus = sorted(os.sched_getaffinity(0))
                    os.sched_setaffinity(0, {cpus[idx % len(cpus)]})
                except OSError:
                    pass
                while True:
                    job = _recv(r1)
                    if job is None:
                        break
                    try:
                        res = ('ok', handler(job))
                    except BaseException:  # noqa
                        res = ('err', traceback.format_exc())
                    _send(w2, res)
                    if res[0] == 'ok' and res[1][-1]:
                        break  # hung: this process has a stuck thread
            except BaseException:  # noqa
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.w = w1
        self.r = r2
        self.job = None
        self.t0 = 0
        self.idx = idx

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap()

    def reap(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class JobError(Exception):
    pass


def run_pool(jobs, handler, on_result, nworkers=None, deadline=None,
             job_wall=240.0, stop=None):
    """Process `jobs` (an iterator); on_result(job, result) may return new jobs.

    Returns True if everything was processed, False if the deadline was hit."""
    nworkers = nworkers or int(os.environ.get('VERIF_JOBS', 0)) or len(os.sched_getaffinity(0))
    it = iter(jobs)
    extra = []
    exhausted = False
    workers = []
    complete = True
    sys.stdout.flush()
    sys.stderr.flush()

    def next_job():
        nonlocal exhausted
        if extra:
            return extra.pop()
        if not exhausted:
            try:
                return next(it)
            except StopIteration:
                exhausted = True
        return None

    try:
        while True:
            if stop is not None and stop():
                complete = False
                break
            if deadline is not None and vrt.real_monotonic() > deadline:
                complete = False
                break
            # hand out
            for w in workers:
                if w.job is None:
                    j = next_job()
                    if j is None:
                        break
                    w.job = j
                    w.t0 = vrt.real_monotonic()
                    _send(w.w, j)
            busy = [w for w in workers if w.job is not None]
            while len(busy) == len(workers) and len(workers) < nworkers:
                j = next_job()
                if j is None:
                    break
                used = {w.idx for w in workers}
                w = Worker(min(i for i in range(nworkers) if i not in used), handler)
                w.job = j
                w.t0 = vrt.real_monotonic()
                _send(w.w, j)
                workers.append(w)
                busy.append(w)
            if not busy:
                break
            rl, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in busy:
                if w.r in rl:
                    res = _recv(w.r)
                    job, w.job = w.job, None
                    if res is None:
                        w.reap()
                        workers.remove(w)
                        raise JobError(f'worker died on job {str(job)[:500]}')
                    if res[0] == 'err':
                        raise JobError(res[1] + f'\nin job {str(job)[:500]}')
                    if res[1][-1]:
                        w.kill()
                        workers.remove(w)
                    new = on_result(job, res[1])
                    if new:
                        extra.extend(new)
                elif vrt.real_monotonic() - w.t0 > job_wall:
                    job = w.job
                    w.kill()
                    workers.remove(w)
                    raise JobError(f'job exceeded {job_wall}s of wall time: {str(job)[:500]}')
    finally:
        for w in workers:
            w.kill()
    return complete


# ---------------------------------------------------------------------------

class LoopProgram(Scenario):
    """A timed program on one event loop in one thread (no interleavings)."""
    opts = {'lines': False, 'max_steps': 200000, 'horizon': 100000.0}
    modules = ('aiuti.asyncio',)

    def __init__(self, spec):
        self.spec = spec

    def __repr__(self):
        return f'{type(self).__name__}({self.spec!r})'

    def setup(self, s):
        self.s = s
        self.bad = []
        self.events = []
        m = fresh(*self.modules)
        self.m = m

    async def main(self):
        raise NotImplementedError

    def root(self):
        import asyncio
        asyncio.run(self.main())

    def check(self, s):
        if s.status != 'ok':
            what = {'deadlock': 'the event loop has nothing left to wait for: something hangs forever',
                    'steps': 'the event loop spins forever', 'horizon': 'time passes without progress',
                    'wallhang': 'the event loop is blocked by a busy loop'}.get(s.status, s.status)
            return self.hang(what) + self.bad
        return self.bad

    def hang(self, what):
        return [what]

    def outcome(self, s):
        return tuple(map(str, self.events))

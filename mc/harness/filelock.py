"""
C02 / C12: FileLock on the real file system (scratch directory), virtual
threads and virtual time.

* kind 'q' (C12): explicit-state breadth-first search over operation sequences
  of two threads on one or two objects for the same file.  A state is the
  reference model's state plus everything reachable from the objects; every
  operation (and every operation with an injected OS error) is applied in every
  reachable state, on the real object, by replaying a shortest path to it.
    spec: ('q', objs, depthcap, ctxcap, faults)    objs: ((reentrant, timeout), ...)
* kind 'i' (C02, C12): interleavings of threads at line granularity.
    spec: (prop, 'i', objs, threads, opts)
    threads: tuple of (start, ((op, obj, hold), ...))
* kind 'f' (C02): real processes, fork while holding; see flockproc.py
"""
import contextlib
import errno
import fcntl
import itertools
import os
import pathlib
import queue
import shutil
import tempfile
import threading
import time
from collections import deque

from .. import vrt, explore
from ..check import Group

LEVEL = {p: 'model_checking' for p in ('C02', 'C12')}
ASSUMPTIONS = {
    'C02': ['nobody but FileLock touches the lock file', 'the lock is not forcibly released by a non-holder',
            'a process is not forked while another of its threads is inside acquire()'],
    'C12': ['injected OS errors are raised by open, lock, unlock and close; a failing close has closed'],
}

TAU = 0.12
POLL = 0.05
EPS = 1e-6

_real_open, _real_close = os.open, os.close
_real_flock, _real_lockf = fcntl.flock, fcntl.lockf
_real_register = getattr(os, 'register_at_fork', None)

BASE = None
COUNT = 0
W = None          # the current world


def base_dir():
    global BASE
    if BASE is None or BASE[0] != os.getpid():
        root = os.environ.get('MC_SCRATCH')
        d = tempfile.mkdtemp(prefix='w', dir=root)
        BASE = (os.getpid(), d)
    return BASE[1]


class Interrupt(BaseException):
    pass


class Pathy:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class World:
    """The operating system as seen by the code under test."""

    def __init__(self):
        global COUNT
        COUNT += 1
        self.dir = base_dir()
        self.path = os.path.join(self.dir, f'l{COUNT}')
        self.waiters = []
        self.plan = []
        self.hits = {}
        self.fired = 0

    def fds(self):
        out = []
        for f in os.listdir('/proc/self/fd'):
            try:
                p = os.readlink('/proc/self/fd/' + f)
            except OSError:
                continue
            if p.startswith(self.path):
                out.append(int(f))
        return out

    def free(self):
        """is the lock free, as seen by an independent descriptor"""
        try:
            fd = _real_open(self.path, os.O_RDWR)
        except OSError:
            return True
        try:
            _real_flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            return True
        except OSError:
            return False
        finally:
            _real_close(fd)

    def close(self):
        for fd in self.fds():
            try:
                _real_close(fd)
            except OSError:
                pass
        for f in os.listdir(self.dir):
            if f == os.path.basename(self.path) or f.startswith(os.path.basename(self.path) + '.'):
                p = os.path.join(self.dir, f)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)

    def named(self, form, n=0):
        """the path of lock file n, written in some other way"""
        p = self.path + ('.%d' % n if n else '')
        if n > 8:                # the same name in another directory
            p = os.path.join(self.path + '.sub%d' % n, os.path.basename(self.path))
            os.makedirs(os.path.dirname(p), exist_ok=True)
        d, f = os.path.split(p)
        if form == 'path':
            return pathlib.Path(p)
        if form == 'fspath':
            return Pathy(p)
        if form == 'rel':
            return os.path.relpath(p)
        if form == 'relpath':
            return pathlib.Path(os.path.relpath(p))
        if form == 'dots':
            return os.path.join(d, '.', '..', os.path.basename(d), f)
        if form == 'slashes':
            return d + '//' + f
        if form == 'dir':            # through a link to the directory
            ln = self.path + '.dir'
            if not os.path.islink(ln):
                os.symlink(d, ln)
            return os.path.join(ln, f)
        if form == 'link':           # a link to the file itself
            ln = p + '.ln'
            if not os.path.islink(ln):
                os.symlink(p, ln)
            return ln
        return p

    # -- faults ------------------------------------------------------------
    def arm(self, plan):
        self.plan = list(plan)
        self.hits = {}

    def fault(self, name):
        """exception to raise at this call of `name`, or None"""
        if not self.plan:
            return None
        k = self.hits.get(name, 0)
        self.hits[name] = k + 1
        for what, nth, kind in self.plan:
            if what == name and (nth == k or nth == 'all'):
                self.fired += 1
                if kind == 'K':
                    return Interrupt()
                return OSError(kind, os.strerror(kind))
        return None

    def wake(self):
        if vrt.S is not None:
            for t in self.waiters:
                vrt.S.wake(t)


def _mine():
    return W is not None and vrt.S is not None and not vrt.S.aborting


def f_open(path, flags, *a, **k):
    if _mine() and isinstance(path, (str, bytes, os.PathLike)) and os.fspath(path) == W.path:
        vrt.S.point('os.open')
        e = W.fault('open')
        if e:
            raise e
    return _real_open(path, flags, *a, **k)


def f_close(fd):
    if _mine():
        try:
            ours = os.readlink(f'/proc/self/fd/{fd}').startswith(W.path)
        except (OSError, TypeError):
            ours = False
        if ours:
            vrt.S.point('os.close')
            e = W.fault('close')
            _real_close(fd)
            W.wake()
            if e:
                raise e
            return None
    return _real_close(fd)


def _lockfn(real):
    def lock(fd, op, *a):
        if not _mine():
            if not op & fcntl.LOCK_UN:
                op |= fcntl.LOCK_NB
            return real(fd, op, *a)
        s = vrt.S
        s.point('flock')
        e = W.fault('unlock' if op & fcntl.LOCK_UN else 'lock')
        if e:
            raise e
        if op & fcntl.LOCK_UN:
            r = real(fd, op, *a)
            W.wake()
            return r
        if op & fcntl.LOCK_NB:
            return real(fd, op, *a)
        again = 0.5
        while True:
            try:
                return real(fd, op | fcntl.LOCK_NB, *a)
            except OSError as e:
                if e.errno not in (errno.EWOULDBLOCK, errno.EACCES):
                    raise
            me = s.cur
            W.waiters.append(me)
            # woken by releases; now and then in case one was not noticed
            again *= 2
            try:
                s.block(s.now + again, 'flock')
            finally:
                W.waiters.remove(me)
    return lock


f_flock, f_lockf = _lockfn(_real_flock), _lockfn(_real_lockf)


def prepare():
    root = tempfile.mkdtemp(prefix='mc-flock-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['MC_SCRATCH'] = root
    os.open, os.close = f_open, f_close
    fcntl.flock, fcntl.lockf = f_flock, f_lockf
    if _real_register is not None:
        os.register_at_fork = lambda **k: None
    return root


def finish():
    root = os.environ.get('MC_SCRATCH')
    if root and 'mc-flock-' in root:
        shutil.rmtree(root, ignore_errors=True)


def load():
    return explore.fresh('aiuti.filelock')


# ---------------------------------------------------------------------------
# kind 'q': sequences

class Model:
    """Reference semantics of objects sharing one lock file."""

    def __init__(self, objs):
        self.objs = objs
        self.holder = [None] * len(objs)
        self.depth = [0] * len(objs)
        self.ctx = {0: [], 1: []}

    def key(self):
        return (tuple(self.holder), tuple(self.depth), tuple(map(tuple, self.ctx.values())))

    def can(self, t, o):
        """would an attempt by t on o succeed"""
        if self.holder[o] is not None:
            return self.objs[o][0] and self.holder[o] == t
        return all(h is None for h in self.holder)

    def mine(self, t, o):
        """may t release o"""
        return self.holder[o] in (None, t) or not self.objs[o][0]

    def acquired(self, t, o):
        if self.holder[o] is None:
            self.holder[o] = t
            self.depth[o] = 1
        else:
            self.depth[o] += 1

    def release(self, t, o, force=False):
        if self.holder[o] is None:
            return
        if force:
            self.holder[o] = None
            self.depth[o] = 0
            return
        if self.objs[o][0]:
            self.depth[o] -= 1
            if not self.depth[o]:
                self.holder[o] = None
            return
        self.holder[o] = None
        self.depth[o] = 0


ACQ = {
    'nb': lambda o: o.acquire(blocking=False),
    'np': lambda o: o.acquire(False),
    'tm': lambda o: o.acquire(timeout=TAU, poll_interval=POLL),
    't0': lambda o: o.acquire(timeout=0, poll_interval=POLL),
    'bl': lambda o: o.acquire(),
}
LIMIT = {'nb': 0.0, 'np': 0.0, 'tm': 2 * TAU + POLL, 't0': POLL, 'cx': 0.0, 'ct': 2 * TAU + POLL}


class Ctx:
    __slots__ = ('cm', 'o')


def canon(x, depth=0):
    if isinstance(x, vrt.VLock):
        return ('L', x._locked)
    if isinstance(x, threading._RLock):
        own = x._owner
        return ('R', x._count, None if own is None else threading._active[own].name
                if own in threading._active else '?')
    if isinstance(x, (str, bytes, float, bool)) or x is None:
        return x
    if isinstance(x, int):
        return x if x < 3 else 'int'     # descriptors, idents, pids
    if isinstance(x, (list, tuple)):
        return tuple(canon(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, depth + 1)) for k, v in x.items()))
    if depth < 3 and hasattr(x, '__dict__'):
        return (type(x).__name__, canon(vars(x), depth + 1))
    return type(x).__name__


class SeqScenario(explore.Scenario):
    opts = {'lines': False, 'max_steps': 100000, 'horizon': 1000.0}

    def __init__(self, spec, path):
        self.spec = spec
        self.path = path

    def setup(self, s):
        global W
        self.s = s
        self.bad = []
        self.key = None
        self.op = None
        W = World()
        self.w = W
        m = load()
        kw = []
        for re_, to in self.spec[1]:
            d = {}
            if re_:
                d['reentrant'] = True
            if to is not None:
                d['timeout'] = to
            kw.append(d)
        self.objs = [m.FileLock(W.path, **d) for d in kw]
        self.model = Model(self.spec[1])
        self.cms = {0: [], 1: []}

    def root(self):
        self.qs = [queue.SimpleQueue(), queue.SimpleQueue()]
        self.back = queue.SimpleQueue()
        ts = [threading.Thread(target=self.worker, args=(k,), name=f't{k}') for k in (0, 1)]
        for t in ts:
            t.start()
        for i, op in enumerate(self.path):
            self.op = op
            self.qs[op[0]].put(op)
            self.back.get()
            if self.bad:
                break
        else:
            self.key = (self.model.key(), tuple(self.strip(canon(vars(o))) for o in self.objs))
        for q in self.qs:
            q.put(None)
        for t in ts:
            t.join()
        # leave quietly
        W.arm(())
        self.cms = None

    def strip(self, c):
        return tuple((k, v if v != self.w.path else 'path') for k, v in c)

    def worker(self, k):
        while True:
            op = self.qs[k].get()
            if op is None:
                return
            try:
                self.apply(op)
            finally:
                self.back.put(1)

    def apply(self, op):
        t, name, o = op[:3]
        plan = op[3] if len(op) > 3 else ()
        s, m, w = self.s, self.model, self.w
        obj = self.objs[o] if o is not None else None
        t0 = s.now
        exc = res = None
        can = m.can(t, o) if name in ACQ or name in ('cx', 'ct', 'wi') else None
        before = len(w.fds())
        if plan:
            w.arm(plan)
        try:
            if name in ACQ:
                res = ACQ[name](obj)
            elif name in ('cx', 'ct', 'wi'):
                cm = obj if name == 'wi' else obj.acquire_ctx(blocking=False) if name == 'cx' \
                    else obj.acquire_ctx(timeout=TAU, poll_interval=POLL)
                cm.__enter__()
                res = True
                self.cms[t].append((cm, o))
            elif name in ('xc', 'xe'):
                cm, o = self.cms[t].pop()
                m.ctx[t].pop()
                if name == 'xe':
                    e = ValueError('body')
                    try:
                        raise e
                    except ValueError:
                        try:
                            if cm.__exit__(ValueError, e, e.__traceback__):
                                self.bad.append('the with statement swallowed the exception of its body')
                        except ValueError as e2:
                            if e2 is not e:
                                raise
                else:
                    cm.__exit__(None, None, None)
            elif name == 'rl':
                obj.release()
            elif name == 'rf':
                obj.release(force=True)
            else:
                raise AssertionError(name)
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            exc = e
        w.arm(())
        dt = s.now - t0
        what = f'{name} by thread {t} on object {o}' + (f' with {plan}' if plan else '')
        if name in ACQ or name in ('cx', 'ct', 'wi'):
            if exc is not None:
                okexc = plan and isinstance(exc, (OSError, Interrupt)) or \
                    name in ('cx', 'ct', 'wi') and isinstance(exc, TimeoutError)
                if not okexc:
                    self.bad.append(f'{what} raised {exc!r}')
                elif can and not plan:
                    self.bad.append(f'{what} raised {exc!r} although the lock was free for it')
                res = False
            if res not in (True, False):
                self.bad.append(f'{what} returned {res!r}')
            if res and not can:
                self.bad.append(f'{what} succeeded although the lock is held '
                                f'(holders {m.holder}, depths {m.depth})')
                return
            if not res and can and not plan:
                self.bad.append(f'{what} failed although the lock was free for it '
                                f'(holders {m.holder}, depths {m.depth})')
                return
            lim = LIMIT.get(name)
            if name in ('bl', 'wi') and self.spec[1][o][1] is not None:
                lim = 2 * self.spec[1][o][1] + POLL
            if lim is not None and dt > lim + EPS:
                self.bad.append(f'{what} took {dt} s, at most {lim} allowed')
            if res:
                m.acquired(t, o)
                if name in ('cx', 'ct', 'wi'):
                    m.ctx[t].append(o)
            elif len(w.fds()) > before:
                self.bad.append(f'failed {what} left a file descriptor open')
        else:
            m.release(t, o, name == 'rf')
            if exc is not None and not (plan and isinstance(exc, OSError)):
                self.bad.append(f'{what} raised {exc!r}')
        for i, ob in enumerate(self.objs):
            if bool(ob.is_locked) != (m.holder[i] is not None):
                self.bad.append(f'after {what}: is_locked of object {i} is {ob.is_locked!r}, '
                                f'holder {m.holder[i]}, depth {m.depth[i]}')
        held = sum(h is not None for h in m.holder)
        n = len(w.fds())
        if n > held:
            self.bad.append(f'after {what}: {n} file descriptors open for {held} held locks')
        if w.free() != (held == 0):
            self.bad.append(f'after {what}: the lock file is {"free" if w.free() else "locked"} '
                            f'although holders are {m.holder}')

    def check(self, s):
        if s.status != 'ok' and not self.bad:
            self.bad.append(f'{self.op} hangs ({s.status}); path {self.path}, model {self.model.key()}')
        return self.bad

    def outcome(self, s):
        return self.key or ()

    def cleanup(self, s):
        global W
        W = None
        self.objs = None
        self.w.close()


def enabled(m, spec):
    """all operations applicable in a model state"""
    depthcap, ctxcap, faults = spec[2:5]
    out = []
    for t in (0, 1):
        for o in range(len(m.objs)):
            can = m.can(t, o)
            deep = can and m.depth[o] >= depthcap
            if not deep:
                for name in ('nb', 'np', 'tm', 't0'):
                    out.append((t, name, o))
                if can or m.objs[o][1] is not None:
                    out.append((t, 'bl', o))
                if len(m.ctx[t]) < ctxcap:
                    out.append((t, 'cx', o))
                    out.append((t, 'ct', o))
                    if can or m.objs[o][1] is not None:
                        out.append((t, 'wi', o))
            # releasing the reentrant lock of another thread is outside of the contract
            mine = m.mine(t, o)
            if mine:
                out.append((t, 'rl', o))
                out.append((t, 'rf', o))
            if faults:
                if not deep and m.depth[o] == 0:
                    acq = ['nb', 'tm'] + (['bl'] if can else []) + (['cx', 'wi'] if len(m.ctx[t]) < ctxcap and can
                                                                    else [])
                    for name in acq:
                        for plan in FAULTS_ACQ:
                            if plan[0][1] == 'all' and name in ('bl', 'wi') and m.objs[o][1] is None:
                                continue
                            out.append((t, name, o, plan))
                if m.holder[o] is not None and mine:
                    for plan in FAULTS_REL:
                        out.append((t, 'rl', o, plan))
                        out.append((t, 'rf', o, plan))
        if m.ctx[t] and m.mine(t, m.ctx[t][-1]):
            out.append((t, 'xc', None))
            out.append((t, 'xe', None))
            if faults:
                out.append((t, 'xc', None, FAULTS_REL[0]))
    return out


ERRNOS = [errno.EIO, errno.ENOLCK, errno.EACCES, errno.EDEADLK, errno.EINTR, errno.ENOSYS, errno.EOPNOTSUPP,
          errno.EBADF, errno.EPERM, errno.EROFS, errno.ENOENT, errno.EISDIR, errno.ENOSPC, errno.EMFILE, errno.EAGAIN,
          errno.EINVAL, errno.ETXTBSY, errno.ESTALE, errno.ENXIO, errno.EEXIST]
EI, EL, EA = errno.EIO, errno.ENOLCK, errno.EACCES
FAULTS_ACQ = [
    (('open', 0, EA),), (('open', 'all', EA),), (('open', 0, 'K'),),
    (('lock', 0, EL),), (('lock', 'all', EL),), (('lock', 0, 'K'),), (('lock', 1, 'K'),),
    (('lock', 0, EL), ('close', 0, EI)), (('close', 0, EI),), (('open', 0, EA), ('lock', 0, EL)),
    (('lock', 0, EL), ('lock', 1, 'K')), (('open', 0, EA), ('open', 1, 'K')),
]
FAULTS_REL = [(('unlock', 0, EI),), (('close', 0, EI),), (('unlock', 0, EI), ('close', 0, EI))]


def custom_job(prop, specs):
    if specs[0][0] in ('f', 'm', 's', 'h'):
        from . import flockproc
        return flockproc.job(specs)
    st = explore.Stats()
    for spec in specs:
        bfs(spec, st)
        if st.violations:
            break
    return st, [], False


def bfs(spec, st):
    limit = spec[5]
    start = run_path(spec, (), st)
    if start is None:
        return
    seen = {start.key: ()}
    todo = deque([((), start.model)])
    trans = 0
    maxd = 0
    while todo:
        path, model = todo.popleft()
        if limit is not None and len(path) >= limit:
            continue
        for op in enabled(model, spec):
            trans += 1
            sc = run_path(spec, path + (op,), st)
            if sc is None:
                if len(st.violations) >= 3:
                    return
                continue
            if sc.key not in seen:
                seen[sc.key] = path + (op,)
                maxd = max(maxd, len(path) + 1)
                todo.append((path + (op,), sc.model))
    st.nodes += len(seen)
    st.extra['explicit states'] = st.extra.get('explicit states', 0) + len(seen)
    st.extra['explicit transitions'] = st.extra.get('explicit transitions', 0) + trans
    st.extra.setdefault('depth of the state graph', set()).add(maxd)
    st.samples.append({'configuration': spec, 'states': len(seen), 'transitions': trans, 'depth': maxd,
                       'a longest path': repr(list(seen.values())[-1])[:400]})


def run_path(spec, path, st):
    sc = SeqScenario(spec, path)
    r = explore.run_one(sc)
    st.executions += 1
    st.steps += len(path)
    st.statuses[r.status] = st.statuses.get(r.status, 0) + 1
    if r.violations:
        sc2 = SeqScenario(spec, path)
        r2 = explore.run_one(sc2)
        if r2.violations:
            st.violations.append((('path', spec, path), None, r2.violations, None))
        else:
            st.unreproduced.append(((spec, path), b'', r.violations, []))
        return None
    if len(st.outcomes) < 50000:
        st.outcomes.add(explore._h((spec, sc.key)))
    return sc


def replay(spec):
    if spec[0] == 'path':
        sc = SeqScenario(spec[1], spec[2])
        r = explore.run_one(sc)
        return r.violations
    from . import flockproc
    return flockproc.replay(spec)


# ---------------------------------------------------------------------------
# kind 'i': interleavings

class MxScenario(explore.Scenario):
    """threads: ((start, ((op, obj, hold[, rel]), ...)), ...)"""

    def __init__(self, spec):
        self.spec = spec
        self.prop, _, self.objspec, self.threads, o = spec
        self.o = dict(o)
        self.opts = {'max_steps': 30000, 'horizon': self.o.get('horizon', 200.0), 'instr': self.o.get('instr', False),
                     'stall': self.o.get('stall', False), 'free_block': self.o.get('free_block', False)}

    def __repr__(self):
        return f'MxScenario({self.spec!r})'

    def setup(self, s):
        global W
        self.s = s
        self.bad = {'C02': [], 'C12': []}
        self.inside = []
        self.hist = []
        W = self.w = World()
        m = load()
        self.objs = []
        self.files = self.o.get('files', (0,) * len(self.objspec))
        if self.o.get('old'):
            for n in set(self.files):
                with open(W.named('abs', n), 'w') as f:
                    f.write('4711\n' * 3)
                os.chmod(W.named('abs', n), self.o['old'])
        for i, (re_, to) in enumerate(self.objspec):
            d = {'reentrant': bool(re_)}
            if to is not None:
                d['timeout'] = to
            self.objs.append(m.FileLock(W.named(self.o.get('paths', ('abs',) * 9)[i], self.files[i]), **d))

    def root(self):
        ts = []
        for k, (start, prog) in enumerate(self.threads):
            t = threading.Thread(target=self.thread, args=(k, start, prog), name=f't{k}')
            ts.append(t)
        self.w.arm(self.o.get('faults', ()))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.w.arm(())
        # everything has been released: anybody can acquire again
        self.s.atomic += 1
        n = len(self.w.fds())
        if n:
            self.bad['C12'].append(f'{n} file descriptors are open although everything has been released')
        for i, o in enumerate(self.objs):
            if o.is_locked:
                self.bad['C12'].append(f'is_locked of object {i} is true although everything has been released')
            elif not o.acquire(blocking=False):
                self.bad['C12'].append(f'object {i} cannot be acquired although everything has been released')
            else:
                o.release()
        self.s.atomic -= 1

    def enter(self, k, n):
        both = {x for x, y in self.inside if y == n}
        if both - {k}:
            self.bad['C02'].append(f'threads {sorted(both | {k})} are inside the section together '
                                   f'at {self.s.now}')
        self.inside.append((k, n))

    def leave(self, k, n):
        self.inside.remove((k, n))

    def thread(self, k, start, prog):
        s = self.s
        if start:
            time.sleep(start)
        for step in prog:
            op, oi, hold = step[:3]
            rel = step[3] if len(step) > 3 else 'rl'
            try:
                self.step(k, op, self.objs[oi], hold, rel, oi)
            except vrt.Abort:
                raise
            except (OSError, Interrupt) as e:
                if not self.o.get('faults') and not isinstance(e, TimeoutError):
                    self.bad['C12'].append(f'{op} in thread {k} raised {e!r}')
                self.hist.append((k, op, type(e).__name__))
            except BaseException as e:  # noqa
                self.bad['C12'].append(f'{op} in thread {k} raised {e!r}')
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise

    def body(self, k, o, hold, op):
        s = self.s
        n = self.files[self.objs.index(o)]
        self.enter(k, n)
        if not o.is_locked:
            self.bad['C12'].append(f'is_locked is false while thread {k} holds the lock')
        if self.o.get('probe') and self.w.free():
            self.bad['C12'].append(f'{op} in thread {k} reported success but the lock file is not locked')
            self.bad['C02'].append(f'{op} in thread {k} reported success but another process could lock the file')
        s.point('section')
        if self.o.get('age'):
            # the lock file has last been changed when the lock was acquired
            t = time.time() - self.o['age']
            os.utime(self.w.named('abs', n), (t, t))
        if hold:
            time.sleep(hold)
        s.point('section')
        self.leave(k, n)
        self.hist.append((k, op, True, s.now))

    def body_of(self, k, oi):
        n = self.files[oi]
        self.enter(k, n)
        self.s.point('section')
        self.leave(k, n)

    def step(self, k, op, o, hold, rel, oi):
        s = self.s
        t0 = s.now
        if op[0] == 'st':        # another default timeout from now on
            o.timeout = op[1]
            self.objspec = tuple((r, op[1]) if i == oi else (r, t) for i, (r, t) in enumerate(self.objspec))
            return
        if op in ('cx', 'ct', 'wi', 'cb') or op[0] == 'tc':
            cm = op[0] == 'tc' and o.acquire_ctx(timeout=op[1], poll_interval=op[2]) or {'wi': lambda: o, 'cx': lambda: o.acquire_ctx(blocking=False), 'cb': lambda: o.acquire_ctx(),
                  'ct': lambda: o.acquire_ctx(timeout=TAU, poll_interval=POLL)}[op]()
            entered = False
            try:
                with cm:
                    entered = True
                    self.took(op, k, s.now - t0, oi)
                    self.body(k, o, hold, op)
                    if rel == 'xe':
                        raise ValueError('body')
            except TimeoutError:
                if entered:
                    raise
                self.took(op, k, s.now - t0, oi)
                self.refused(op, k)
                self.early(op, k, s.now - t0, oi)
                self.hist.append((k, op, False, s.now))
            except ValueError:
                if rel != 'xe' or not entered:
                    raise
            return
        if op == 'rt':        # retry without blocking
            for _ in range(4):
                if o.acquire(blocking=False):
                    break
                time.sleep(0.07)
            else:
                return
        elif op == 're':      # nested acquires of a reentrant lock
            if not o.acquire():
                self.bad['C12'].append('blocking acquire returned False')
                return
            if not o.acquire(blocking=False):
                self.bad['C12'].append('nested acquire of a reentrant lock failed')
                o.release()
                return
            self.body(k, o, hold, op)
            o.release()
            self.body(k, o, 0, op)
            o.release()
            return
        elif op in ('in', 'in2'):      # another file's lock inside, then this one's again from outside
            other = self.objs[oi + 1]
            if not o.acquire(timeout=9):
                self.bad['C12'].append(f'thread {k} cannot acquire lock {oi}')
                return
            t0 = s.now
            if not (other.acquire() if op == 'in' else other.acquire(blocking=False)):
                if op == 'in':
                    self.bad['C12'].append('blocking acquire returned False')
                self.body(k, o, hold, op)
            else:
                self.body(k, other, hold, op)
                other.release()
                if not o.is_locked:
                    self.bad['C12'].append('releasing one lock has released the lock of another file')
                self.body(k, o, 0, op)
            o.release()
            if other.is_locked and not self.o.get('shared'):
                self.bad['C12'].append('the lock of another file is locked although it has been released')
            return
        elif op[0] == 'rn':      # nested many levels deep
            with contextlib.ExitStack() as st:
                for i in range(op[1]):
                    if op[2] == 'w' or op[2] == 'm' and i % 2:
                        st.enter_context(o.acquire_ctx(timeout=9) if i % 3 else o)
                    elif not (o.acquire() if i % 5 == 0 else o.acquire(blocking=False)):
                        self.bad['C12'].append(f'nested acquire {i} of a reentrant lock failed')
                        return
                    else:
                        st.callback(o.release)
                self.body(k, o, hold, op)
                if op[2] in 'fh':   # given back at once, all of it or what is left
                    n = 0 if op[2] == 'f' else op[1] // 2
                    for i in range(n):
                        st._exit_callbacks.pop()[1](None, None, None)
                    if n and not o.is_locked:
                        self.bad['C12'].append(f'a reentrant lock acquired {op[1]} times is not locked after {n} releases')
                    o.release(force=True)
                    if o.is_locked:
                        self.bad['C12'].append('a reentrant lock is locked after a forced release')
                    st.pop_all()
                    return
                for i in range(op[1] - 1):
                    st._exit_callbacks.pop()[1](None, None, None)
                    if not o.is_locked:
                        self.bad['C12'].append(f'a reentrant lock acquired {op[1]} times is not locked after '
                                               f'{i + 1} releases')
                        break
                self.body(k, o, hold, op)
            return
        elif op[0] == 'cy':      # acquired and released many times
            for i in range(op[1]):
                how = op[2][i % len(op[2])]
                self.step(k, how, o, 0, rel if how not in ('cx', 'ct', 'wi', 'cb') else 'rl', oi)
            op = 'bl'
            t0 = s.now
            if not o.acquire():
                self.bad['C12'].append('blocking acquire returned False')
                return
        elif op[0] == 'mk':      # other objects for the same file are made and dropped
            cls = type(o)
            for i in range(op[1]):
                x = cls(self.w.named('abs', self.files[oi]), reentrant=bool(i % 2))
                if op[2] == 'try' and x.acquire(blocking=False):
                    self.body_of(k, oi)
                    if i % 3:
                        x.release()
                    elif i % 2:
                        x.acquire(blocking=False)      # dropped while held twice
                elif op[2] == 'twice' and x.acquire(blocking=False):
                    x.release()
                    x.release()
                    x.release(force=True)
                del x
            if op[2] == 'keep':
                self.kept = [cls(self.w.named('abs', self.files[oi])) for _ in range(op[1])]
            return
        elif op == 'rw':      # nested with statements
            with o:
                with o.acquire_ctx(timeout=TAU):
                    self.body(k, o, hold, op)
                self.body(k, o, 0, op)
            return
        else:
            if op[0] == 'ta':
                r = o.acquire(timeout=op[1], poll_interval=op[2])
            elif op[0] == 'tb':      # the flag does not matter together with a timeout
                r = o.acquire(True, op[1], op[2])
            else:
                r = ACQ[op](o)
            self.took(op, k, s.now - t0, oi)
            if r not in (True, False):
                self.bad['C12'].append(f'{op} returned {r!r}')
            if not r:
                self.refused(op, k)
                self.early(op, k, s.now - t0, oi)
                self.hist.append((k, op, False, s.now))
                return
        self.body(k, o, hold, op)
        o.release(force=True) if rel == 'rf' else o.release()

    def early(self, op, k, dt, oi):
        """Lock contract: wait as long as the lock cannot be acquired, up to the timeout"""
        if self.o.get('faults'):
            return
        to, poll = {'tm': (TAU, POLL), 'ct': (TAU, POLL), 't0': (0, POLL), 'bl': (None, POLL), 'wi': (None, POLL),
                    'cb': (None, POLL)}.get(op, op[1:] if isinstance(op, tuple) else (0, 0))
        if to is None:
            to = self.objspec[oi][1]
        if to is None or to < 0:
            self.bad['C12'].append(f'{op} in thread {k} without a timeout gave up after {dt} s')
        elif dt < to - poll - EPS:
            self.bad['C12'].append(f'{op} in thread {k} gave up after {dt} s, its timeout is {to} s')

    def refused(self, op, k):
        if self.o.get('free'):
            self.bad['C12'].append(f'{op} in thread {k} failed although nobody else has used this lock file')

    def took(self, op, k, dt, oi):
        lim = LIMIT.get(op)
        if isinstance(op, tuple):
            lim = None if op[1] is None or op[1] < 0 else 2 * op[1] + op[2]
        if op in ('bl', 'wi', 'cb') and (self.objspec[oi][1] is not None and self.objspec[oi][1] >= 0):
            lim = 2 * self.objspec[oi][1] + POLL
        if lim is not None and dt > lim + EPS:
            self.bad['C12'].append(f'{op} in thread {k} took {dt} s, at most {lim} allowed')

    def check(self, s):
        bad = list(self.bad[self.prop])
        if s.status not in ('ok', 'divergence') and self.prop == 'C12':
            bad.append(f'{s.status}: a blocking acquire never returns although every holder releases')
        return bad

    def outcome(self, s):
        return tuple(self.hist)

    def cleanup(self, s):
        global W
        W = None
        self.objs = None
        self.w.close()


def make(spec):
    return MxScenario(spec)


# ---------------------------------------------------------------------------

N, R = (False, None), (True, None)
NT, RT = (False, 0.1), (True, 0.1)


def interleavings(prop, th):
    OPS = ('bl', 'nb', 'tm', 'wi', 'ct', 'cx', 'rt')

    def two():
        for objs in ((N,), (R,), (N, N), (R, R), (N, R)):
            for a, b in itertools.combinations_with_replacement(OPS, 2):
                ob = len(objs) - 1
                for h in (0, 0.06):
                    if h and a in ('nb', 'cx') and b in ('nb', 'cx'):
                        continue
                    yield (prop, 'i', objs, ((0, ((a, 0, h),)), (0, ((b, ob, 0),))), ())

    def two_deep():
        for objs, ops in (((N,), ('bl', 'tm', 'wi')), ((R,), ('bl', 'nb')), ((N, N), ('bl', 'nb', 'tm'))):
            ob = len(objs) - 1
            for a, b in itertools.combinations_with_replacement(ops, 2):
                yield (prop, 'i', objs, ((0, ((a, 0, 0),)), (0, ((b, ob, 0),))), ())

    def default_timeout():
        for objs in ((NT,), (RT,), (NT, NT), (RT, N)):
            ob = len(objs) - 1
            for a in ('wi', 'bl', 'cb'):
                for b in ('wi', 'bl', 'tm'):
                    for h in (0.05, 0.3):
                        yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (0, ((a, ob, 0),)), (0, ((b, ob, 0),))), ())

    def repeat():
        # a second round, other ways of releasing
        for objs in ((N,), (R,), (N, N), (R, R)):
            ob = len(objs) - 1
            for a in ('bl', 'wi', 'tm'):
                for rel in ('rl', 'rf', 'xe'):
                    if (rel == 'xe') != (a == 'wi') or a == 'wi' and rel == 'rf':
                        continue
                    for b in ('bl', 'nb', 'ct'):
                        yield (prop, 'i', objs, ((0, ((a, 0, 0, rel), ('bl', 0, 0))), (0, ((b, ob, 0), ('nb', ob, 0)))), ())

    def nested():
        for objs in ((R,), (R, R), (R, N)):
            ob = len(objs) - 1
            for a in ('re', 'rw'):
                for b in ('bl', 'nb', 'tm', 're', 'wi'):
                    if b == 're' and not objs[ob][0]:
                        continue
                    yield (prop, 'i', objs, ((0, ((a, 0, 0),)), (0, ((b, ob, 0),))), ())
                    yield (prop, 'i', objs, ((0, ((a, 0, 0.06),)), (0, ((b, ob, 0.06),))), ())

    def three():
        for objs, which in (((N,), (0, 0, 0)), ((R, R), (0, 1, 1)), ((N, N), (0, 0, 1)), ((N, N, N), (0, 1, 2)),
                            ((R, N), (0, 1, 1))):
            for ops in itertools.combinations_with_replacement(('bl', 'nb', 'tm', 'wi'), 3):
                for h in (0, 0.06):
                    yield (prop, 'i', objs, tuple((0, ((op, w, h if i == 0 else 0),))
                                                  for i, (op, w) in enumerate(zip(ops, which))), ())
            # arrivals while another one waits
            for ops in itertools.product(('bl', 'tm', 'wi'), ('bl', 'tm'), ('nb', 'bl', 'wi', 'tm')):
                yield (prop, 'i', objs, ((0, ((ops[0], which[0], 0.1),)), (0.02, ((ops[1], which[1], 0.05),)),
                                         (0.1, ((ops[2], which[2], 0.05),))), ())

    def waiting():
        # timed waiters queue up behind each other in both waiting stages
        for objs, which in (((N,), (0, 0, 0, 0)), ((N, N), (0, 1, 1, 1)), ((R, N), (0, 1, 1, 0))):
            for h in (0.06, 0.15, 0.31, 0.5):
                for ops in itertools.product(('tm', 'ct'), ('tm', 'bl'), ('tm', 'nb')):
                    yield (prop, 'i', objs, ((0, (('bl', which[0], h),)),) + tuple(
                        (0.01, ((op, w, 0.05),)) for op, w in zip(ops, which[1:])), ())

    def faults():
        for objs in ((N,), (R,), (N, N), (R, N)):
            ob = len(objs) - 1
            for a, b in (('bl', 'nb'), ('tm', 'bl'), ('wi', 'wi'), ('bl', 'tm')):
                for plan in FAULTS_ACQ + [((w, 1, k),) for w, _, k in (p[0] for p in FAULTS_ACQ) if k != 'K'] + FAULTS_REL:
                    if any(x[1] == 'all' for x in plan):
                        continue
                    yield (prop, 'i', objs, ((0, ((a, 0, 0.05),)), (0, ((b, ob, 0),))), (('faults', plan),))

    def instr():
        for objs in ((N,), (R,), (N, N)):
            ob = len(objs) - 1
            for a, b in (('bl', 'bl'), ('bl', 'nb'), ('tm', 'wi')):
                yield (prop, 'i', objs, ((0, ((a, 0, 0),)), (0, ((b, ob, 0),))), (('instr', True),))

    def stall():
        for objs in ((N,), (N, N), (R, R)):
            ob = len(objs) - 1
            for a, b in (('bl', 'tm'), ('tm', 'tm'), ('wi', 'tm'), ('rt', 'tm')):
                yield (prop, 'i', objs, ((0, ((a, 0, 0.06),)), (0, ((b, ob, 0),))), (('stall', True),))
    FORMS = ('abs', 'path', 'fspath', 'rel', 'relpath', 'dots', 'slashes', 'dir', 'link')

    def paths():
        # the same file under different names, existing files
        for f, g in itertools.product(FORMS, repeat=2):
            for objs in ((N, N), (R, N)) if f == g else ((N, N),):
                for a, b in (('bl', 'bl'), ('nb', 'nb'), ('wi', 'tm')):
                    yield (prop, 'i', objs, ((0, ((a, 0, 0.06), (a, 1, 0))), (0, ((b, 1, 0),))), (('paths', (f, g)),))
        for f in FORMS:
            for mode in (0o644, 0o600, 0o666):
                yield (prop, 'i', (N, N), ((0, (('bl', 0, 0),)), (0, (('tm', 1, 0),))),
                       (('paths', (f, 'abs')), ('old', mode)))

    def files():
        # locks of different files do not touch each other
        for a, b in itertools.product(('bl', 'nb', 'tm', 'wi', 'ct', 'cx'), repeat=2):
            for objs in ((N, N), (R, R)):
                yield (prop, 'i', objs, ((0, ((a, 0, 0.3),)), (0.01, ((b, 1, 0.3), (a, 1, 0)))),
                       (('files', (0, 1)), ('free', True)))
                yield (prop, 'i', objs, ((0, ((a, 0, 0.3),)), (0.01, ((b, 1, 0.3), (a, 1, 0)))),
                       (('files', (0, 9)), ('free', True), ('paths', ('rel', 'path'))))
        for objs in ((N, N), (R, R), (R, N), (N, R)):
            for op in ('in', 'in2'):
                for other in (1, 9):
                    yield (prop, 'i', objs, ((0, ((op, 0, 0), (op, 0, 0))),), (('files', (0, other)),))
                for op2 in ('in', 'in2', 'bl', 'tm'):
                    yield (prop, 'i', objs, ((0, ((op, 0, 0),)), (0, ((op2, 0, 0.06),))),
                           (('files', (0, 1)), ('shared', True)))
        for op in ('in', 'in2'):
            for op2 in ('bl', 'nb', 'wi'):
                yield (prop, 'i', (N, N, N, N), ((0, ((op, 0, 0),)), (0, ((op, 2, 0.06),)), (0.01, ((op2, 3, 0),))),
                       (('files', (0, 1, 0, 1)), ('shared', True)))
    def errnos():
        # every error number, once or always, in every call
        for e in ERRNOS:
            for plan in [((w, n, e),) for w in ('open', 'lock', 'unlock', 'close') for n in (0, 1, 'all')]:
                for objs in ((N,), (R, N)):
                    ob = len(objs) - 1
                    for a, b in (('nb', 'nb'), ('tm', 'cx'), ('wi', 'nb'), ('bl', 'tm')):
                        if plan[0][1] == 'all' and plan[0][0] in ('open', 'lock') and a in ('wi', 'bl'):
                            continue
                        yield (prop, 'i', objs, ((0, ((a, 0, 0.05), ('nb', 0, 0))), (0.01, ((b, ob, 0.05),))),
                               (('faults', plan), ('probe', True)))

    def held_long():
        # nothing but a release ends a hold
        for objs in ((N,), (N, N), (R, R), (R, N)):
            ob = len(objs) - 1
            for h in (70, 4000, 90000, 3e6):
                for op in ('bl', 'wi', ('ta', 2 * h, h / 7), ('tc', 2 * h, h / 3), ('ta', h / 3, h / 20),
                           ('tb', h / 2, h / 2)):
                    for k in (0, 1):
                        yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (k, ((op, ob, 1),)), (h / 2, (('nb', ob, 0),))),
                               (('age', 1e-9 + k * 1e7), ('horizon', 1e9)))
                yield (prop, 'i', objs, ((0, (('bl', 0, h),)),) + tuple(
                    (h * j / 8, (('nb', ob, 0), ('cx', ob, 0))) for j in range(1, 8)), (('age', 1e-9), ('horizon', 1e9)))

    def many():
        # many levels, many rounds, many failed attempts, many objects
        for L in (3, 12, 40, 130, 260) + ((1030,) if th else ()):
            for how in 'awmfh':
                for objs in ((R,), (R, R), (R, N), (RT, R)):
                    ob = len(objs) - 1
                    for b in ('nb', 'tm', 'bl'):
                        yield (prop, 'i', objs, ((0, ((('rn', L, how), 0, 0.2),)), (0.1, ((b, ob, 0), ('nb', ob, 0)))), ())
        for K in (5, 70, 300) + ((3000,) if th else ()):
            for hows in (('bl',), ('nb',), ('wi',), ('tm', 'ct'), ('bl', 'wi', 'nb', 'cx', 'tm')):
                for objs in ((N,), (N, N), (R, R), (R, N)):
                    ob = len(objs) - 1
                    for rel in ('rl', 'rf'):
                        # every round succeeds, or every one fails until the holder has left
                        yield (prop, 'i', objs, ((0, ((('cy', K, hows), 0, 0.1, rel),)), (0.05, (('bl', ob, 0), ('nb', ob, 0)))),
                               (('horizon', 1e4),))
                        yield (prop, 'i', objs, ((0, (('bl', 0, K * 0.12, rel),)), (0.01, ((('cy', K, hows), ob, 0.1),)),
                                                 (0.02, (('wi', ob, 0), ('bl', 0, 0)))), (('horizon', 1e5),))
        for K in (2, 40, 300):
            for how in ('', 'try', 'twice', 'keep'):
                for objs in ((N,), (N, N), (R, R)):
                    ob = len(objs) - 1
                    yield (prop, 'i', objs, ((0, (('bl', 0, 0.2),)), (0.1, ((('mk', K, how), ob, 0), ('nb', ob, 0), ('tm', ob, 0))),
                                             (0.05, (('bl', ob, 0),))), ())
                    yield (prop, 'i', objs, ((0, ((('mk', K, how), ob, 0), ('bl', ob, 0.1))), (0.05, (('bl', 0, 0), ('nb', ob, 0)))), ())

    def defaults():
        # the default timeout is changed after the object was made
        for t0 in (None, 0.1, 3, -1):
            for t1 in (0, 0.2, 1.5, -1):
                for re_ in (False, True):
                    for objs in (((re_, t0),), ((False, None), (re_, t0))):
                        ob = len(objs) - 1
                        for op in ('bl', 'wi', 'cb'):
                            for h in (0.05, 0.7, 8):
                                yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (0.01, ((('st', t1), ob, 0), (op, ob, 0.1),
                                                                                   (op, ob, 0)))), (('horizon', 1e4),))
                                yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (0.01, ((op, ob, 0), (('st', t1), ob, 0),
                                                                                   (op, ob, 0)))), (('horizon', 1e4),))

    def timings():
        # every relation of timeout, poll interval and hold
        for objs in ((N,), (N, N), (R, N)):
            ob = len(objs) - 1
            for to in (0, 0.01, 0.1, 1, 30, 1e5):
                for poll in (0.01, 0.05, 0.3, 7, 1e5):
                    if to / poll > 400:
                        continue
                    for h in (0.005, 0.02, 0.5, 20, 2e5):
                        if poll < 0.01 and h > 1:
                            continue
                        for op in ('ta', 'tb', 'tc'):
                            yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (0.001, (((op, to, poll), ob, 0.01),))),
                                   (('horizon', 1e9),))
            for to in (None, -1):
                for poll in (0, 0.01, 7):
                    for h in (0.005, 3, 2e5):
                        yield (prop, 'i', objs, ((0, (('bl', 0, h),)), (0.001, ((('ta', to, poll), ob, 0.01),))),
                               (('horizon', 1e9),))
    out = [Group('every error number', errnos, 'explore', bounds=(0, 1) if th else (0,)),
           Group('locks held for long', held_long, 'explore', bounds=(0,)),
           Group('many levels, rounds, objects', many, 'explore', bounds=(0,)),
           Group('timeouts and poll intervals', timings, 'explore', bounds=(0,)),
           Group('default timeouts which are changed', defaults, 'explore', bounds=(0,)),
           Group('one file under different names', paths, 'explore', bounds=(1, 2) if th else (1,)),
           Group('locks of different files', files, 'explore', bounds=(1, 2) if th else (1,)),
           Group('two threads', two, 'explore', bounds=(1, 2) if th else (1,)),
           Group('two threads, deeper', two_deep, 'explore', bounds=(3,) if th else (2,)),
           Group('default timeout', default_timeout, 'explore', bounds=(1, 2) if th else (1,)),
           Group('second round', repeat, 'explore', bounds=(1, 2) if th else (1,)),
           Group('nested', nested, 'explore', bounds=(1, 2) if th else (1,)),
           Group('three threads', three, 'explore', bounds=(1, 2) if th else (1,)),
           Group('timed waiters', waiting, 'explore', bounds=(0, 1)),
           Group('OS errors', faults, 'explore', bounds=(0, 1)),
           Group('bytecode granularity', instr, 'explore', bounds=(1, 2) if th else (1,))]
    if prop == 'C02':
        out.append(Group('time passes while threads are stalled', stall, 'explore', bounds=(1, 2) if th else (1,)))
    return out


def groups(prop, tier):
    th = tier == 'thorough'
    if prop == 'C12':
        def seqs():
            cfgs = [(N,), (R,), (NT,), (RT,), (N, N), (R, R), (R, N), (NT, R)]
            for c in cfgs:
                yield ('q', c, 3, 2 if th or len(c) == 1 else 1, False, None)
            for c in cfgs if th else cfgs[:2] + cfgs[4:7]:
                yield ('q', c, 2, 1, True, None)

        return [Group('operation sequences, explicit states', seqs, 'custom', chunk=1)] + interleavings(prop, th)
    if prop == 'C02':
        from . import flockproc
        return interleavings(prop, th) + [
            Group('fork while holding, real processes', flockproc.fork_specs(th), 'custom', chunk=1),
            Group('process stopped at every line, real processes', flockproc.pause_specs(th), 'custom', chunk=1),
            Group('operation sequences of a process and its child', flockproc.family_specs(th), 'custom', chunk=1),
            Group('operation sequences of real processes', flockproc.seq_specs(th), 'custom', chunk=1)]
    raise AssertionError(prop)

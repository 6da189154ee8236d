"""
Virtual runtime: a controlled scheduler for real Python threads, with
virtual time, virtual locks and virtual asyncio event loops.

``install()`` replaces, in this process, the primitives through which
Python code can block, spawn threads or look at a clock
(``_thread.allocate_lock``, ``threading.RLock``, thread start/join,
``queue.SimpleQueue``, ``time.*``, the asyncio event loop policy, the task
registry order).  Everything above them - ``threading``, ``queue``,
``concurrent.futures``, ``asyncio`` and the code under test - is the real
code, and runs unmodified on real OS threads of which exactly one runs at a
time.  Which one is a *choice*; an execution is a deterministic function of
its list of choices.

Choice points:
  * every source line executed inside the code under test (sys.monitoring
    LINE events; INSTRUCTION events in the bytecode-granular mode),
  * every event loop iteration / start / stop / thread-safe wake-up,
  * explicit points in harness code (``point``), environment choices made by
    the harness (``choose``),
  * every blocking operation.

The default choice is "keep running the current thread"; anything else is a
deviation with a cost (see explore.py).  Virtual time only advances when no
thread can run (plus, optionally, as a deviation).
"""
import _thread
import sys
import time as _time
import gc

_raw_lock = _thread.allocate_lock
_raw_start = _thread.start_new_thread
get_ident = _thread.get_ident

real_monotonic = _time.monotonic
real_time = _time.time
real_sleep = _time.sleep
real_perf = _time.perf_counter

NEW, READY, BLOCKED, DONE = range(4)

TIME_BASE = 4096.0  # virtual time.time()/monotonic() at the start


class Abort(BaseException):
    """Raised inside leftover virtual threads to unwind them."""


class EngineError(Exception):
    """The machinery itself is broken (never a property violation)."""


class Divergence(EngineError):
    pass


S = None  # the running Sched, or None when no execution is in progress


class VThread:
    __slots__ = ('id', 'baton', 'state', 'deadline', 'timed_out', 'name',
                 'main', 'exc', 'sentinels', 'aborts', 'why', 'pid', 'daemon')

    def __init__(self, id, name, main):
        self.id = id
        self.name = name
        self.main = main
        self.baton = _raw_lock()
        self.baton.acquire()
        self.state = NEW
        self.deadline = None
        self.timed_out = False
        self.exc = None
        self.sentinels = []
        self.aborts = 0
        self.why = ''
        self.pid = 0

    def __repr__(self):
        return f'<{self.name} {("new","ready","blocked","done")[self.state]} {self.why}>'


class Sched:
    def __init__(self, prefix=(), *, max_steps=20000, horizon=1e6,
                 stall=False, free_block=False, log=None, lines=True,
                 expect=None, fair=1500):
        self.prefix = prefix
        self.expect = expect          # recorded number of alternatives, or None
        self.max_steps = max_steps
        self.horizon = horizon
        self.stall = stall
        self.free_block = free_block
        self.lines = lines
        self.threads = []
        self.cur = None
        self.now = 0.0
        self.steps = 0
        self.choices = []
        self.nalts = []
        self.costs = []
        self.driver = _raw_lock()
        self.driver.acquire()
        self.aborting = False
        self.status = None            # 'ok' | 'deadlock' | 'steps' | 'horizon'
        self.log = log
        self.on_loop_start = []
        self.on_loop_stop = []
        self.double_run = []
        self.switches = 0
        self.line_events = 0
        self.atomic = 0               # >0: no choice points (harness internals)
        self.crash_hook = None
        self.engine_error = None
        self.vloops = []
        self.fair = fair              # forced switch after so many points in a row
        self.run_len = 0
        self.fair_switches = 0

    # -- choices -------------------------------------------------------
    def _choose(self, n, cost):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (self.expect is not None and i < len(self.expect)
                          and self.expect[i] != n):
                self.engine_error = (
                    f'divergence at choice {i}: want {c} of '
                    f'{self.expect[i] if self.expect and i < len(self.expect) else "?"}, have {n}')
                self._end('divergence')
        else:
            c = 0
        self.choices.append(c)
        self.nalts.append(n)
        self.costs.append(cost)
        return c

    def choose(self, n, label='', cost=0):
        """An environment choice in 0..n-1 made by the harness."""
        if n <= 1 or self.aborting:
            return 0
        c = self._choose(n, cost)
        if self.log is not None:
            self.log.append((self.now, self.cur.name, f'choose {label} -> {c}/{n}'))
        return c

    # -- thread control ------------------------------------------------
    def spawn(self, fn, name=None, main=True, args=(), kwargs=None):
        vt = VThread(len(self.threads), name or f'T{len(self.threads)}', main)
        self.threads.append(vt)
        vt.state = READY
        if self.cur is not None:
            vt.pid = self.cur.pid
        _raw_start(self._thread_main, (vt, fn, args, kwargs or {}))
        return vt

    def _thread_main(self, vt, fn, args, kwargs):
        vt.baton.acquire()
        try:
            if not self.aborting:
                fn(*args, **kwargs)
        except Abort:
            pass
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            vt.exc = e
        self._thread_done(vt)

    def _thread_done(self, vt):
        vt.state = DONE
        vt.why = ''
        for lock in vt.sentinels:
            lock._force_release()
        if self.aborting:
            self.driver.release()
            return
        if vt.main and all(t.state == DONE for t in self.threads if t.main):
            self.status = self.status or 'ok'
            self.driver.release()
            return
        nxt = None
        try:
            nxt = self._pick_next(vt)
        except Abort:
            return  # _end() already woke the driver
        if nxt is None:
            self.status = self.status or 'deadlock'
            self.driver.release()
            return
        self.cur = nxt
        self.switches += 1
        nxt.baton.release()

    def _end(self, status):
        """End the execution from inside a virtual thread."""
        if self.status is None:
            self.status = status
        if self.cur is not None and self.cur.state != DONE:
            self.cur.state = BLOCKED
            self.cur.why = self.cur.why or status
        me = self.cur
        self.driver.release()
        if me.state == DONE:
            raise Abort
        me.baton.acquire()
        raise Abort

    def _enabled_after(self, me):
        """Ready threads other than `me`, round robin after `me`."""
        n = len(self.threads)
        out = []
        for k in range(1, n):
            t = self.threads[(me.id + k) % n]
            if t.state == READY:
                out.append(t)
        return out

    def _advance_time(self):
        dl = None
        for t in self.threads:
            if t.state == BLOCKED and t.deadline is not None:
                if dl is None or t.deadline < dl:
                    dl = t.deadline
        if dl is None:
            return False
        if dl > self.now:
            self.now = dl
        if self.now > self.horizon:
            self._end('horizon')
        for t in self.threads:
            if t.state == BLOCKED and t.deadline is not None and t.deadline <= self.now:
                t.state = READY
                t.timed_out = True
        return True

    def _pick_next(self, me):
        """Next thread once `me` cannot run (blocked or done); None = deadlock."""
        en = self._enabled_after(me)
        if not en:
            if me.state == READY:
                return me
            if not self._advance_time():
                return None
            en = self._enabled_after(me)
            if me.state == READY:
                en = en + [me]
        if len(en) > 1:
            c = self._choose(len(en), 0 if self.free_block else 1)
            return en[c]
        return en[0]

    def _switch_to(self, nxt):
        me = self.cur
        self.run_len = 0
        if nxt is not me:
            self.cur = nxt
            self.switches += 1
            nxt.baton.release()
            me.baton.acquire()
        if self.aborting:
            raise Abort

    def point(self, label=''):
        """A preemption point."""
        if self.aborting:
            self._abort_spin()
        if self.atomic:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._end('steps')
        me = self.cur
        if self.log is not None:
            self.log.append((self.now, me.name, label))
        en = self._enabled_after(me)
        n = len(en) + 1
        stall = False
        if self.stall:
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None and t.deadline > self.now:
                    stall = True
                    n += 1
                    break
        if n == 1:
            return
        self.run_len += 1
        if self.run_len > self.fair and en:
            # fairness: somebody else is ready and has been ignored for long
            self.fair_switches += 1
            self._switch_to(en[0])
            return
        c = self._choose(n, 1)
        if c == 0:
            return
        if stall and c == n - 1:
            before = [t for t in self.threads if t.state == READY]
            self._advance_time()
            woken = [t for t in self.threads if t.state == READY and t not in before]
            if self.log is not None:
                self.log.append((self.now, me.name, f'== stall: time passes, {woken[0].name} wakes'))
            self._switch_to(woken[0])
            return
        if self.log is not None:
            self.log.append((self.now, me.name, f'== preempted by {en[c-1].name}'))
        self._switch_to(en[c - 1])

    def yield_(self, label='yield'):
        """sleep(0): let somebody else run by default."""
        if self.aborting:
            self._abort_spin()
        self.steps += 1
        if self.steps > self.max_steps:
            self._end('steps')
        me = self.cur
        en = self._enabled_after(me)
        if not en:
            # Alone and spinning: let time pass if anything is timed
            self._advance_time()
            en = self._enabled_after(me)
            if not en:
                return
        en = en + [me]
        c = self._choose(len(en), 1)
        if en[c] is not me:
            self._switch_to(en[c])

    def block(self, deadline=None, why=''):
        """Block the current thread; returns True if the deadline passed."""
        me = self.cur
        if self.aborting:
            self._abort_spin()
        self.steps += 1
        if self.steps > self.max_steps:
            self._end('steps')
        me.state = BLOCKED
        me.deadline = deadline
        me.timed_out = False
        me.why = why
        if self.log is not None:
            self.log.append((self.now, me.name, f'blocks: {why}' + (
                f' until {deadline:.6g}' if deadline is not None else '')))
        nxt = self._pick_next(me)
        if nxt is None:
            self._end('deadlock')
        self._switch_to(nxt)
        me.why = ''
        me.deadline = None
        return me.timed_out

    def wake(self, vt):
        if vt.state == BLOCKED:
            vt.state = READY
            vt.timed_out = False
            vt.deadline = None

    def _abort_spin(self):
        me = self.cur
        me.aborts += 1
        if me.aborts > 300:
            # Refuses to unwind: leak this OS thread, blocked for good
            me.state = DONE
            self.driver.release()
            _l = _raw_lock()
            _l.acquire()
            _l.acquire()
        raise Abort

    # -- driver side ----------------------------------------------------
    def run(self, root, wall=60.0):
        """Run `root` as the first virtual thread until all main threads end."""
        global S
        if S is not None:
            raise EngineError('nested execution')
        vt = self.spawn(root, 'root', True)
        self.cur = vt
        S = self
        hung = False
        vt.baton.release()
        if not self.driver.acquire(True, wall):
            self.status = 'wallhang'
            hung = True
        return hung

    def teardown(self):
        """Abort whatever is still alive."""
        global S
        leaked = 0
        self.aborting = True
        if self.status != 'wallhang':
            for t in list(self.threads):
                if t.state != DONE:
                    self.cur = t
                    t.baton.release()
                    if not self.driver.acquire(True, 5.0):
                        leaked += 1
            leaked += sum(t.aborts > 300 for t in self.threads)
        S = None
        return leaked


# ---------------------------------------------------------------------------
# Locks

class VLock:
    """Stand-in for _thread.lock."""
    __slots__ = ('_locked', '_waiters', '_owner', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = None
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        s = S
        if s is None:
            self._locked = True
            return True
        if not self._locked:
            self._locked = True
            self._owner = s.cur
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout < 0 else s.now + timeout
        w = self._waiters
        if w is None:
            w = self._waiters = []
        me = s.cur
        while self._locked:
            w.append(me)
            try:
                if s.block(deadline, 'lock') and self._locked:
                    return False
            finally:
                if me in w:
                    w.remove(me)
        self._locked = True
        self._owner = s.cur
        return True

    def release(self):
        if not self._locked:
            if S is None or S.aborting:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        self._owner = None
        if self._waiters and S is not None:
            for t in self._waiters:
                S.wake(t)

    def _force_release(self):
        if self._locked:
            self.release()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __repr__(self):
        return f'<vlock {"locked" if self._locked else "unlocked"}>'


def v_allocate_lock():
    return VLock()


def v_set_sentinel():
    lock = VLock()
    if S is not None:
        S.cur.sentinels.append(lock)
    return lock


def v_start_new_thread(fn, args=(), kwargs=None):
    if S is None:
        return _raw_start(fn, args, kwargs or {})
    S.spawn(fn, None, False, args, kwargs)
    return 0


# ---------------------------------------------------------------------------
# Time

def v_time():
    return real_time() if S is None else TIME_BASE + S.now


def v_monotonic():
    return real_monotonic() if S is None else TIME_BASE + S.now


def v_time_ns():
    return int(v_time() * 1e9)


def v_monotonic_ns():
    return int(v_monotonic() * 1e9)


def v_sleep(secs):
    s = S
    if s is None:
        return real_sleep(secs)
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    if secs == 0:
        s.yield_()
        return
    deadline = s.now + secs
    while s.now < deadline:
        s.block(deadline, 'sleep')


def point(label=''):
    if S is not None:
        S.point(label)


def now():
    return S.now if S is not None else 0.0


# ---------------------------------------------------------------------------
# Line events of the code under test

_TOOL = 4
_monitored = set()


def _on_line(code, line):
    s = S
    if s is not None and s.lines:
        s.line_events += 1
        if s.log is not None:
            s.point(f'{code.co_name}:{line}')
        else:
            s.point()


def _walk(code):
    yield code
    for c in code.co_consts:
        if type(c) is type(code):
            yield from _walk(c)


def monitor(module_code, instructions=False):
    """Make every line of every function in the module a choice point.

    instructions=True: every bytecode instruction; None: nothing."""
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'mc')
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_line)
    ev = 0 if instructions is None else mon.events.INSTRUCTION if instructions else mon.events.LINE
    for c in _walk(module_code):
        if c.co_flags & 0x2:  # CO_NEWLOCALS: functions only... class bodies lack it
            mon.set_local_events(_TOOL, c, ev)


# ---------------------------------------------------------------------------

_installed = False
VLoop = None


def install():
    """Patch this process. Must run before any execution."""
    global _installed, VLoop
    if _installed:
        return
    _installed = True
    import builtins  # noqa
    real = {
        _time.time: v_time, _time.monotonic: v_monotonic,
        _time.perf_counter: v_monotonic, _time.sleep: v_sleep,
        _time.time_ns: v_time_ns, _time.monotonic_ns: v_monotonic_ns,
        _time.perf_counter_ns: v_monotonic_ns,
        _thread.allocate_lock: v_allocate_lock,
        _thread.start_new_thread: v_start_new_thread,
        _thread._set_sentinel: v_set_sentinel,
    }
    import threading
    import queue
    import logging
    import concurrent.futures.thread
    import asyncio
    import asyncio.base_events
    import _queue

    skip = {'mc.vrt', '__main__', 'mc.explore'}
    for name, mod in list(sys.modules.items()):
        if mod is None or name in skip or not hasattr(mod, '__dict__'):
            continue
        for attr, val in list(mod.__dict__.items()):
            try:
                rep = real.get(val)
            except TypeError:
                continue
            if rep is not None:
                try:
                    setattr(mod, attr, rep)
                except (AttributeError, TypeError):
                    pass
    _thread.allocate = v_allocate_lock
    _thread.start_new = v_start_new_thread
    threading._CRLock = None
    _thread.RLock = threading.RLock
    queue.SimpleQueue = queue._PySimpleQueue
    # locks created at import time
    threading._active_limbo_lock = threading.RLock()
    threading._shutdown_locks_lock = VLock()
    concurrent.futures.thread._global_shutdown_lock = VLock()
    import asyncio.mixins
    asyncio.mixins._global_lock = VLock()

    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False

    # -- deterministic task registry ------------------------------------
    import asyncio.tasks

    class OrderedSet(dict):
        def add(self, x):
            self[x] = None

        def discard(self, x):
            self.pop(x, None)

        def remove(self, x):
            del self[x]

        def __iter__(self):
            return iter(list(self.keys()))

    asyncio.tasks._scheduled_tasks.data = OrderedSet()
    import _asyncio
    if getattr(_asyncio, '_scheduled_tasks', None) is not None:
        _asyncio._scheduled_tasks.data = asyncio.tasks._scheduled_tasks.data

    def all_tasks(loop=None):
        if loop is None:
            loop = asyncio.get_running_loop()
        return [t for t in list(asyncio.tasks._scheduled_tasks)
                if asyncio.futures._get_loop(t) is loop and not t.done()] + [
                t for t in list(asyncio.tasks._eager_tasks)
                if asyncio.futures._get_loop(t) is loop and not t.done()]

    asyncio.tasks.all_tasks = asyncio.all_tasks = all_tasks

    # -- event loop -------------------------------------------------------
    class VSelector:
        __slots__ = ('woken', 'vt', 'zero')

        def __init__(self):
            self.woken = False
            self.vt = None
            self.zero = 0

        def select(self, timeout=None):
            s = S
            if s is None:
                if timeout is None or timeout > 0:
                    raise EngineError('event loop would block outside an execution')
                return []
            if timeout is not None and timeout <= 0:
                self.woken = False
                self.zero += 1
                if self.zero % 64 == 0:
                    s.yield_()
                else:
                    s.point('loop')
                return []
            if self.woken:
                self.woken = False
                self.zero = 0
                s.point('loop')
                return []
            self.zero = 0
            deadline = None if timeout is None else s.now + timeout
            self.vt = s.cur
            try:
                s.block(deadline, 'loop')
            finally:
                self.vt = None
                self.woken = False
            return []

        def close(self):
            pass

    class _VLoop(asyncio.BaseEventLoop):
        def __init__(self):
            super().__init__()
            self._selector = VSelector()
            self._clock_resolution = 1e-9
            self._asyncgens.data = OrderedSet()
            self.vname = None
            self.session = 0
            self.errors = []
            if S is not None:
                self.vname = f'L{len(S.vloops)}'
                S.vloops.append(self)

        def time(self):
            return S.now if S is not None else 0.0

        def _process_events(self, event_list):
            pass

        def _write_to_self(self):
            sel = self._selector
            sel.woken = True
            if sel.vt is not None and S is not None:
                S.wake(sel.vt)

        def call_soon_threadsafe(self, callback, *args, context=None):
            h = super().call_soon_threadsafe(callback, *args, context=context)
            if S is not None:
                S.point('call_soon_threadsafe')
            return h

        def run_forever(self):
            s = S
            if s is None:
                return super().run_forever()
            if not self.is_running() and not self.is_closed():
                s.point('loop-starting')
                if self.is_running():
                    # two threads got past the is-running check
                    s.double_run.append(self)
            self.session += 1
            for cb in s.on_loop_start:
                cb(self)
            try:
                super().run_forever()
            finally:
                if not s.aborting:
                    for cb in s.on_loop_stop:
                        cb(self)
            s.point('loop-stopped')

        def call_exception_handler(self, context):
            self.errors.append(context)

        def close(self):
            if self.is_running():
                if S is not None and not S.aborting:
                    raise RuntimeError('Cannot close a running event loop')
                self._thread_id = None
            super().close()
            if S is not None:
                S.point('loop-closed')

        def __del__(self):
            pass

    VLoop = _VLoop

    class VPolicy(asyncio.DefaultEventLoopPolicy):
        _loop_factory = _VLoop

    asyncio.set_event_loop_policy(VPolicy())
    asyncio.SelectorEventLoop = _VLoop
    import warnings
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None
    sys.unraisablehook = lambda *_: None
    threading.excepthook = lambda *_: None
    gc.disable()


def reset_globals():
    """Forget interpreter-global leftovers of the previous execution."""
    import threading
    import asyncio
    import concurrent.futures.thread as cft
    main = threading.main_thread()
    act = threading._active
    for k in [k for k, v in act.items() if v is not main]:
        act.pop(k, None)
    threading._limbo.clear()
    threading._shutdown_locks.clear()
    threading._active_limbo_lock._block._locked = False
    threading._active_limbo_lock._owner = None
    threading._active_limbo_lock._count = 0
    threading._shutdown_locks_lock._locked = False
    cft._global_shutdown_lock._locked = False
    cft._threads_queues.clear()
    cft._shutdown = False
    asyncio.mixins._global_lock._locked = False
    asyncio.tasks._scheduled_tasks.data.clear()
    try:
        asyncio.events._set_running_loop(None)
    except Exception:  # noqa
        pass

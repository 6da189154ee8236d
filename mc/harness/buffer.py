"""
C03 / C07 / C08: buffer_until_timeout / BufferAsyncCalls.

Two explorations of the real class in virtual time (timeout T = 1):

* timed programs on one loop (kind 'p'), every program runs once:
    spec: (prop, 'p', events, fbeh, opts)
    events: tuple of
      ('s', at, kind, n, fail, delay)   submission of n elements
          kind: c call, a await_, m map(list), i map(generator), r map(range-like
                custom iterable), g amap(async generator)
                n amap(async generator which submits a value of its own per element)
          fail: None | 'e' Exception | 'b' BaseException | 'c' CancelledError
                raised by the producer after its n elements
          delay: virtual seconds before each element (and before failing)
      ('w', at, cancel, timeout|None)   wait() in a task of its own
      ('x', at, k)                      cancel the buffer's background task, after
                                        k further loop iterations; ends the program
      ('y', at, k)                      k iterations of the loop pass
      ('e', at, k)                      main() returns: asyncio.run shuts down
      at: seconds | ('f', k) inside the k-th function call | ('F', k) just before
          the k-th function call ends
    fbeh: ((duration, code), ...) of successive function calls, then (0, 'v')
          code: v succeed, e raise, b raise BaseException, c raise CancelledError,
                t raise TimeoutError, m empty the received set and raise,
                M empty the received set and succeed
    opts: dict items: ('values', 'falsy'|'same'|'odd'), ('form', 'dec'|'opt'|'cls'),
          ('T', timeout), ('twin', True): a second buffer is used at the same times

* timed programs around a loop which is run piece by piece (kind 'q'), as in the
  documentation of buffer_until_timeout:
    spec: (prop, 'q', steps, fbeh, opts)
    steps: tuple of ('s', kind, n, fail, delay) submission while nobody runs the
      loop, ('R', d) run it for d seconds, ('W', cancel) run it until a wait()
      ends, ('P', d) nobody runs it for d seconds, ('B', kind, n, d) submit and
      wait() inside and leave d seconds later; at last it runs for a long time

* interleavings (kind 'i') of foreign threads with the loop thread:
    spec: (prop, 'i', loop_events, foreign, fbeh, opts)
    foreign: tuple of threads, each a tuple of (at, op, n) with op in
      c a m i g as above or w (wait_from_anywhere in a loop of its own)
    opts: also ('idle', True): nobody runs the loop of the buffer unless
          wait_from_anywhere() does
"""
import asyncio as aio
import itertools
import threading
import time

from .. import vrt, explore
from ..check import Group

T = 1.0
EPS = 1e-6
QUIET = 60.0

LEVEL = {p: 'model_checking' for p in ('C03', 'C07', 'C08')}
ASSUMPTIONS = {
    'C03': ['every producer ends and the function eventually succeeds',
            'arguments are hashable and, except in the dedicated programs, distinct'],
    'C07': ['every producer ends and the function eventually succeeds',
            'functions and producers do not suppress their own cancellation'],
    'C08': ['exact ties (a submission exactly timeout after another, or at the end of a call) are not judged'],
}

class CanAwait:
    """an argument which is neither awaited, iterated, called nor asked for its truth"""

    def no(self, *a):
        raise AssertionError('an argument is used')
    __await__ = __iter__ = __aiter__ = __call__ = __bool__ = __len__ = __next__ = no


ODD = [ValueError('x'), StopIteration(1), KeyError, 'text', (1, 2), CanAwait(), print, CanAwait(), aio.CancelledError(),
       StopAsyncIteration(), float('nan'), object(), range(3), b'by', CanAwait(), type]
FALSY = [0, None, '', (), frozenset(), b'', 1, 2, 3, 4, 5, 6]


class ProdError(Exception):
    pass


class ProdBase(BaseException):
    pass


class FuncError(Exception):
    pass


class FuncBase(BaseException):
    pass


class Sub:
    __slots__ = ('n', 'time', 'seq', 'vals', 'kind', 'foreign')


class FCall:
    __slots__ = ('n', 'args', 'start', 'end', 'ok', 'sseq', 'eseq', 'raw')


class Wait:
    __slots__ = ('n', 'seq', 'start', 'end', 'eseq', 'cancel', 'timeout', 'exc', 'task', 'own')


FAIL = {'e': lambda: ProdError('producer'), 'b': lambda: ProdBase('producer'),
        'c': lambda: aio.CancelledError('producer'), 't': lambda: aio.TimeoutError('producer')}


class Base:
    def common_setup(self, s, fbeh, opts):
        self.s = s
        self.fbeh = fbeh
        self.o = dict(opts)
        self.T = self.o.get('T', T)
        self.quiet = max(QUIET, 60 * self.T, 3 * sum(d for d, _ in fbeh), (len(fbeh) + 9) * self.T)
        self.subs = []
        self.calls = []
        self.waits = []
        self.bad = []
        self.active = 0
        self.seq = 0
        self.hooks = {}
        self.nval = 0
        self.twin = None
        self.twin_got = []
        self.twin_sent = 0

    async def twin_func(self, args):
        n = len(self.twin_got)
        self.twin_got.append(None)
        await aio.sleep(self.T / 3)
        if n % 2 == 0:
            args.clear()
            raise FuncError('twin')
        self.twin_got[n] = set(args)

    def check_twin(self):
        if self.twin is None:
            return []
        got = [v for g in self.twin_got if g for v in g]
        if sorted(got) == list(range(self.twin_sent)):
            return []
        return [f'the other buffer: 0..{self.twin_sent - 1} were submitted, successful calls received {got!r}']

    def tick(self):
        self.seq += 1
        return self.seq

    # -- the wrapped function -------------------------------------------
    async def func(self, args):
        s = self.s
        c = FCall()
        c.n = len(self.calls)
        c.start = s.now
        c.sseq = self.tick()
        c.end = c.eseq = None
        c.ok = None
        c.raw = args
        self.calls.append(c)
        if not isinstance(args, (set, frozenset)):
            self.bad.append(('C03', f'the function received a {type(args).__name__}, not a set'))
        c.args = frozenset(args)
        if not args:
            self.bad.append(('C08', f'the function was called with an empty set at {s.now}'))
        self.active += 1
        if self.active > 1:
            self.bad.append(('C08', f'{self.active} calls of the function in progress at {s.now}'))
        dur, code = self.fbeh[c.n] if c.n < len(self.fbeh) else (0, 'v')
        try:
            for h in self.hooks.get(('f', c.n), ()):
                h()
            if dur:
                await aio.sleep(dur)
            for h in self.hooks.get(('F', c.n), ()):
                h()
            if code in 'mM':
                args.clear()
            if code in 'em':
                raise FuncError(c.n)
            if code == 'b':
                raise FuncBase(c.n)
            if code == 'c':
                raise aio.CancelledError('function')
            if code == 't':
                raise aio.TimeoutError('function')
            c.ok = True
        finally:
            self.active -= 1
            c.end = s.now
            c.eseq = self.tick()
            if c.ok is None:
                c.ok = False

    def make_buffer(self):
        m = self.m
        if self.o.get('twin'):
            self.twin = m.buffer_until_timeout(self.twin_func, timeout=self.T * 0.7)
        form = self.o.get('form', 'opt')
        f = self.func
        if form == 'dec':
            return m.buffer_until_timeout(timeout=self.T)(f)
        if form == 'cls':
            return m.BufferAsyncCalls(f, timeout=self.T)
        return m.buffer_until_timeout(f, timeout=self.T)

    # -- submissions -----------------------------------------------------
    def value(self, i, j):
        v = self.o.get('values')
        if v == 'same':
            return 'same'
        if v == 'falsy':
            self.nval += 1
            return FALSY[self.nval - 1]
        if v == 'odd':
            self.nval += 1
            return ODD[(self.nval - 1) % len(ODD)] if self.nval <= len(ODD) else f's{i}.{j}'
        return f's{i}.{j}'

    def submit(self, kind, n, fail, delay, foreign=False):
        i = len(self.subs)
        u = Sub()
        u.n = i
        u.kind = kind
        u.foreign = foreign
        u.vals = [self.value(i, j) for j in range(n)]
        vals = u.vals
        self.subs.append(u)
        if self.twin is not None and not foreign:
            if i % 2:
                self.twin(self.twin_sent)
            else:
                self.twin.map([self.twin_sent])
            self.twin_sent += 1
        u.time = self.s.now
        if not foreign:
            u.seq = self.tick()
        if kind == 'c':
            self.b(vals[0])
        elif kind == 'a':
            async def aw():
                if delay:
                    await aio.sleep(delay)
                if fail:
                    raise FAIL[fail]()
                return vals[0]
            if fail:
                u.vals = []
                vals = [None]
            self.b.await_(aw())
        elif kind == 'm':
            self.b.map(list(vals))
        elif kind == 'r':
            class Src:
                def __iter__(self):
                    for v in vals:
                        yield v
                    if fail:
                        raise FAIL[fail]()
            self.b.map(Src())
        elif kind == 'i':
            def gen():
                for v in vals:
                    if delay:
                        time.sleep(delay)
                    yield v
                if fail:
                    if delay:
                        time.sleep(delay)
                    raise FAIL[fail]()
            self.b.map(gen())
        elif kind == 'g':
            async def agen():
                for v in vals:
                    if delay:
                        await aio.sleep(delay)
                    yield v
                if fail:
                    if delay:
                        await aio.sleep(delay)
                    raise FAIL[fail]()
            self.b.amap(agen())
        elif kind == 'n':
            async def nested():
                for v in vals:
                    if delay:
                        await aio.sleep(delay)
                    self.submit('c', 1, None, 0)
                    yield v
                if fail:
                    raise FAIL[fail]()
                self.submit('m', 1, None, 0)
            self.b.amap(nested())
        else:
            raise AssertionError(kind)
        if foreign:
            u.seq = self.tick()    # submitted for sure from here on
        return u

    async def do_wait(self, w):
        w.start = self.s.now
        w.seq = self.tick()
        try:
            if w.timeout is not None:
                await aio.wait_for(self.b.wait(cancel=w.cancel), w.timeout)
            else:
                await self.b.wait(cancel=w.cancel)
            w.end = self.s.now
            w.eseq = self.tick()
        except aio.TimeoutError as e:
            w.exc = e
            w.end = self.s.now
            if w.timeout is None:
                raise
        except BaseException as e:  # noqa
            w.exc = e
            w.end = self.s.now
            if not isinstance(e, (vrt.Abort, GeneratorExit)) and not getattr(self, 'shutdown', None):
                self.bad.append(('C07', f'wait() {w.n} raised {e!r}'))
            raise

    def new_wait(self, cancel, timeout=None):
        w = Wait()
        w.n = len(self.waits)
        w.cancel = cancel
        w.timeout = timeout
        w.seq = w.start = w.end = w.eseq = w.exc = w.task = None
        w.own = None
        self.waits.append(w)
        return w

    # -- oracles -----------------------------------------------------------
    def check_c03(self):
        bad = [t for p, t in self.bad if p == 'C03'] + self.check_twin()
        known = {}
        for u in self.subs:
            for v in u.vals:
                known.setdefault(v, []).append(u)
        for c in self.calls:
            for v in c.args:
                us = known.get(v)
                if us is None:
                    bad.append(f'call {c.n} received {v!r}, which nobody submitted')
                elif all(u.seq > c.sseq for u in us if not u.foreign) and not any(u.foreign for u in us):
                    bad.append(f'call {c.n} received {v!r} before it was submitted')
        same = self.o.get('values') == 'same'
        for u in self.subs:
            for v in u.vals:
                hit = [c for c in self.calls if c.ok and v in c.args]
                if same:
                    hit = [c for c in hit if c.sseq > u.seq]
                    if not hit:
                        bad.append(f'submission {u.n} ({u.kind} at {u.time}) of {v!r}: no later successful call has it')
                    continue
                if not hit:
                    tried = [c.n for c in self.calls if v in c.args]
                    bad.append(f'argument {v!r} ({u.kind}, submitted at {u.time}) was never passed to a successful '
                               f'call; failed calls with it: {tried}')
                elif len(hit) > 1 and not u.foreign:
                    bad.append(f'argument {v!r} ({u.kind}, submitted at {u.time}) was delivered to '
                               f'{len(hit)} successful calls: {[c.n for c in hit]}')
        return bad

    def check_c07(self):
        bad = [t for p, t in self.bad if p == 'C07']
        for w in self.waits:
            if w.eseq is None:
                continue
            for u in self.subs:
                if u.seq is None or u.seq > w.seq:
                    continue
                if u.foreign and w.own != u.foreign:
                    continue     # another thread: no order between them
                for v in u.vals:
                    if not any(c.ok and v in c.args and c.eseq < w.eseq for c in self.calls):
                        bad.append(f'wait(cancel={w.cancel}) called at {w.start} returned at {w.end} but {v!r} '
                                   f'({u.kind}, submitted at {u.time}) had not been passed to a successful call')
        return bad

    def check_c08(self, timing):
        bad = [t for p, t in self.bad if p == 'C08']
        T = self.T
        if not timing:
            return bad
        subs = sorted(self.subs, key=lambda u: (u.time, u.n))
        # never while submissions keep arriving
        for a, b in zip(subs, subs[1:]):
            if b.time - a.time < T - EPS:
                for c in self.calls:
                    if a.time + EPS < c.start <= b.time + EPS:
                        bad.append(f'the function was called at {c.start} although arguments arrived at '
                                   f'{a.time} and {b.time}')
        # bursts
        bursts = []
        for u in subs:
            if bursts and u.time - bursts[-1][-1].time < T - EPS:
                bursts[-1].append(u)
            elif bursts and u.time - bursts[-1][-1].time <= T + EPS:
                bursts[-1].append(None)     # tie: not judged
                bursts.append([None, u])
            else:
                bursts.append([u])
        for b in bursts:
            if None in b:
                continue
            if any(c.start - EPS <= u.time <= (c.end if c.end is not None else 1e9) + EPS
                   for u in b for c in self.calls):
                continue
            vals = {v for u in b for v in u.vals}
            want = b[-1].time + T
            first = next((c for c in self.calls if c.args & vals), None)
            if first is None:
                bad.append(f'burst {sorted(vals)} never delivered')
            elif abs(first.start - want) > EPS or not vals <= first.args:
                bad.append(f'burst of arguments at {[u.time for u in b]} must be delivered in one call at {want}; '
                           f'first call with any of them: at {first.start} with {sorted(map(str, first.args))}')
        return bad


class BufferProgram(Base, explore.LoopProgram):
    root_may_raise = True

    def __init__(self, spec):
        explore.LoopProgram.__init__(self, spec)
        n = sum(e[3] for e in spec[2] if e[0] == 's' and isinstance(e[3], int))
        self.opts = dict(self.opts, max_steps=200000 + 60 * n)

    def setup(self, s):
        explore.LoopProgram.setup(self, s)
        self.prop, _, self.ev, fbeh, opts = self.spec
        self.common_setup(s, fbeh, opts)
        subs = [e[2:] for e in self.ev if e[0] == 's'] if self.spec[1] == 'p' else []
        self.quiet += 2 * sum(d * (n + 1) for _, n, _, d in subs)
        self.shutdown = None
        self.bg = []
        self.finished = False
        self.final = False

    async def main(self):
        s = self.s
        loop = aio.get_running_loop()
        before = set(aio.all_tasks())
        self.b = self.make_buffer()
        self.bg = [t for t in aio.all_tasks() if t not in before]
        t0 = s.now
        waits = []
        for ev in self.ev:
            if ev[0] == 's' and isinstance(ev[1], tuple):
                self.hooks.setdefault(ev[1], []).append(lambda ev=ev: self.submit(*ev[2:]))
            elif ev[0] == 'w' and isinstance(ev[1], tuple):
                def start(ev=ev):
                    w = self.new_wait(ev[2], ev[3])
                    waits.append(loop.create_task(self.do_wait(w)))
                self.hooks.setdefault(ev[1], []).append(start)
        for ev in self.ev:
            if isinstance(ev[1], tuple):
                continue
            if t0 + ev[1] > s.now:
                await aio.sleep(t0 + ev[1] - s.now)
            if ev[0] == 's':
                self.submit(*ev[2:])
            elif ev[0] == 'w':
                w = self.new_wait(ev[2], ev[3])
                w.task = loop.create_task(self.do_wait(w))
                waits.append(w.task)
            elif ev[0] == 'y':
                for _ in range(ev[2]):
                    await aio.sleep(0)
            else:
                for _ in range(ev[2]):
                    await aio.sleep(0)
                self.shutdown = (ev[0], s.now)
                for t in waits:
                    t.cancel()
                if ev[0] == 'e':
                    self.finished = True
                    return
                bg = self.bg or [t for t in aio.all_tasks() if t is not aio.current_task()]
                for t in bg:
                    t.cancel()
                await aio.wait(bg, timeout=self.quiet)
                left = [t for t in bg if not t.done()]
                if left:
                    self.bad.append(('C07', f'the background task is still running {self.quiet} s after its cancellation '
                                            f'at {self.shutdown[1]}'))
                self.finished = True
                return
        await aio.sleep(self.quiet)
        for w in self.waits:
            if w.end is None:
                self.bad.append(('C07', f'wait(cancel={w.cancel}) called at {w.start} has not returned at {s.now}'))
        self.final = True
        self.finished = True

    def hang(self, what):
        if self.finished:
            return [f'shutdown of the event loop: {what}']
        return [what]

    def check(self, s):
        if s.status != 'ok':
            if self.shutdown is not None or self.finished:
                if self.prop == 'C07':
                    return [t if isinstance(t, str) else t[1] for t in explore.LoopProgram.check(self, s)]
                return []
            if self.prop == 'C08':
                return [t for p, t in self.bad if p == 'C08']
            out = explore.LoopProgram.check(self, s)
            return [t if isinstance(t, str) else t[1] for t in out]
        self.events = [(c.start, c.ok, sorted(map(repr, c.args))) for c in self.calls] + \
                      [(w.start, w.end) for w in self.waits]
        if self.prop == 'C03':
            return self.check_c03() if self.final else []
        if self.prop == 'C07':
            return self.check_c07()
        plain = self.o.get('values') != 'same' and all(
            e[2] in 'cmri' and e[3] and not e[5] and not e[4] for e in self.ev if e[0] == 's') \
            and not any(e[0] == 'w' and e[2] for e in self.ev) \
            and not any(e[0] in 'xe' for e in self.ev)
        return self.check_c08(plain and self.final)


class BufferPieces(BufferProgram):
    def root(self):
        s = self.s
        loop = aio.new_event_loop()
        aio.set_event_loop(loop)
        try:
            self.b = self.make_buffer()
            for st in self.ev:
                if st[0] == 's':
                    self.submit(*st[1:])
                elif st[0] == 'R':
                    loop.run_until_complete(aio.sleep(st[1]))
                elif st[0] == 'P':
                    time.sleep(st[1])
                elif st[0] == 'W':
                    loop.run_until_complete(self.piece_wait(self.new_wait(st[1])))
                elif st[0] == 'B':
                    loop.run_until_complete(self.piece_inside(*st[1:]))
                else:
                    raise AssertionError(st)
            loop.run_until_complete(aio.sleep(self.quiet))
            self.final = self.finished = True
        finally:
            loop.close()

    async def piece_inside(self, kind, n, d):
        self.submit(kind, n, None, 0)
        t = aio.get_running_loop().create_task(self.do_wait(self.new_wait(True)))
        await aio.sleep(d)
        if not d:
            await t

    async def piece_wait(self, w):
        t = aio.get_running_loop().create_task(self.do_wait(w))
        done, _ = await aio.wait([t], timeout=self.quiet)
        if not done:
            self.bad.append(('C07', f'wait(cancel={w.cancel}) called at {w.start} has not returned at {self.s.now}'))
            t.cancel()

    def check(self, s):
        if s.status == 'ok' and self.prop == 'C08':
            return self.check_c08(False)
        if s.status == 'ok' and self.prop == 'C07':
            self.bad += [('C07', f'wait(cancel={w.cancel}) called at {w.start} has not returned at {s.now}')
                         for w in self.waits if w.end is None and self.final]
        return BufferProgram.check(self, s)


class BufferThreads(Base, explore.Scenario):
    """Foreign threads submit and wait while the loop runs in its thread."""

    def __init__(self, spec):
        self.spec = spec
        self.prop, _, self.lev, self.foreign, self.fb, opts = spec
        o = dict(opts)
        n = sum(op[2] for ops in self.foreign for op in ops if isinstance(op[2], int))
        self.opts = {'max_steps': 40000 + 60 * n, 'horizon': 500.0, 'free_block': o.get('free_block', False),
                     'stall': o.get('stall', False)}
        self.oo = opts

    def __repr__(self):
        return f'BufferThreads({self.spec!r})'

    def setup(self, s):
        self.common_setup(s, self.fb, self.oo)
        self.m = explore.fresh('aiuti.asyncio')
        self.ready = threading.Event()
        self.left = len(self.foreign)
        self.idle = False
        self.final = False
        self.errors = []

    def root(self):
        ts = [threading.Thread(target=self.foreign_thread, args=(k, ops), name=f'F{k}')
              for k, ops in enumerate(self.foreign)]
        if self.o.get('idle'):
            return self.idle_root(ts)
        for t in ts:
            t.start()
        try:
            aio.run(self.main())
        finally:
            for t in ts:
                t.join()

    def idle_root(self, ts):
        self.loop = aio.new_event_loop()
        aio.set_event_loop(self.loop)
        self.b = self.make_buffer()
        for ev in self.lev:
            self.submit(*ev[2:])
        self.ready.set()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        # Whatever is left is delivered once somebody runs the loop
        time.sleep(1)
        self.loop.run_until_complete(aio.sleep(20))
        self.final = True

    async def main(self):
        s = self.s
        loop = aio.get_running_loop()
        self.loop = loop
        self.b = self.make_buffer()
        self.all_done = aio.Event()
        self.loop_vt = s.cur
        self.ready.set()
        waits = []
        for ev in self.lev:
            if ev[1] > s.now:
                await aio.sleep(ev[1] - s.now)
            if ev[0] == 's':
                self.submit(*ev[2:])
            else:
                w = self.new_wait(ev[2], ev[3])
                waits.append(loop.create_task(self.do_wait(w)))
        await self.all_done.wait()
        await aio.sleep(20)
        for w in self.waits:
            if w.end is None:
                self.bad.append(('C07', f'wait(cancel={w.cancel}) called at {w.start} has not returned at {s.now}'))
        self.final = True

    def foreign_thread(self, k, ops):
        s = self.s
        self.ready.wait()
        try:
            for at, op, arg in ops:
                if at > s.now:
                    time.sleep(at - s.now)
                if op == 'w':
                    w = self.new_wait(arg)
                    w.own = f'F{k}'
                    w.start = s.now
                    w.seq = self.tick()
                    try:
                        aio.run(self.b.wait_from_anywhere(cancel=arg))
                    except BaseException as e:  # noqa
                        w.exc = e
                        w.end = s.now
                        if isinstance(e, vrt.Abort):
                            raise
                        self.bad.append(('C07', f'wait_from_anywhere() in thread {k} raised {e!r}'))
                    else:
                        w.end = s.now
                        w.eseq = self.tick()
                else:
                    self.submit(op, arg, None, 0, foreign=f'F{k}')
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            self.errors.append(f'thread {k} failed: {e!r}')
        self.left -= 1
        if not self.left and not self.o.get('idle'):
            # Nothing else wakes up the loop: it has to deliver what was
            # submitted without any outside help
            time.sleep(30)
            self.idle = self.loop_vt.state == vrt.BLOCKED and self.loop_vt.deadline is None
            self.ncalls = len(self.calls)
            self.loop.call_soon_threadsafe(self.all_done.set)

    def check(self, s):
        mine = [t for p, t in self.bad if p == self.prop]
        if s.status == 'divergence':
            return []
        if s.status != 'ok' or not self.final:
            if self.prop == 'C08':
                return mine
            return [f'status {s.status}: something never terminates; waits '
                    f'{[(w.n, w.start, w.end) for w in self.waits]}'] + mine
        if self.errors and self.prop == 'C03':
            return self.errors
        if self.prop == 'C03':
            if self.idle and not self.bad:
                for u in self.subs:
                    for v in u.vals:
                        if u.foreign and not any(c.ok and v in c.args for c in self.calls[:self.ncalls]):
                            self.bad.append(('C03', f'argument {v!r} ({u.kind}, submitted at {u.time}) is not '
                                             f'delivered unless something else wakes up the event loop'))
            return self.check_c03()
        if self.prop == 'C07':
            return self.check_c07()
        return self.check_c08(False)

    def outcome(self, s):
        return tuple((c.start, c.ok, tuple(sorted(map(repr, c.args)))) for c in self.calls) + \
            tuple((w.start, w.end) for w in self.waits)


def make(spec):
    return {'p': BufferProgram, 'q': BufferPieces, 'i': BufferThreads}[spec[1]](spec)


# ---------------------------------------------------------------------------

def S(at, kind='c', n=1, fail=None, delay=0):
    return ('s', at, kind, n, fail, delay)


def W(at, cancel=True, timeout=None):
    return ('w', at, cancel, timeout)


def times(gaps, start=0.0):
    out = []
    t = start
    for g in gaps:
        t += g
        out.append(t)
    return out


PRODS = [('c', 1, None, 0), ('a', 1, None, 0), ('a', 1, None, 0.5), ('a', 1, 'e', 0.25), ('a', 1, None, 2.25),
         ('m', 0, None, 0), ('m', 2, None, 0), ('r', 1, 'e', 0), ('i', 2, None, 0), ('i', 1, 'e', 0.25),
         ('i', 0, None, 0), ('i', 2, None, 0.75), ('g', 0, None, 0), ('g', 2, None, 0), ('g', 2, 'e', 0.5),
         ('g', 1, 'c', 0), ('g', 3, None, 0.75), ('a', 1, 'c', 0), ('g', 1, 'b', 0.25), ('a', 1, 't', 0.25)]
FEW = [PRODS[i] for i in (0, 4, 6, 11, 14)]
MINI = [PRODS[i] for i in (0, 4, 14)]
FB = [(), ((0.5, 'v'),), ((0.5, 'e'), (0.25, 'v')), ((0, 'e'), (0, 'b'), (0.5, 'c')), ((0.25, 'm'),),
      ((2.25, 'v'), (0.5, 'e')), ((0, 'c'),), ((0.5, 'M'), (0, 't'))]


def scaled(spec, t):
    """the same program with all times multiplied by t, for a timeout of t"""
    prop, kind, evs, fb, opts = spec

    def at(x):
        return x if isinstance(x, tuple) else x * t
    out = []
    for e in evs:
        if e[0] == 's':
            out.append(('s', at(e[1]), e[2], e[3], e[4], e[5] * t))
        elif e[0] == 'w':
            out.append(('w', at(e[1]), e[2], e[3] if e[3] is None else e[3] * t))
        else:
            out.append((e[0], at(e[1])) + tuple(e[2:]))
    return (prop, kind, tuple(out), tuple((d * t, c) for d, c in fb), tuple(opts) + (('T', t),))


def timeouts(prop, th, waits):
    """other timeouts, long sequences of failures, very long calls"""
    def other():
        for t in (0.25, 2.5, 30.0, 0) if th else (0.25, 2.5, 0):
            for n in (1, 2, 3):
                for ps in itertools.product(PRODS[:1] + FEW[1:] if n < 3 else MINI[:2], repeat=n):
                    for gaps in itertools.product((0, 0.5, 1.75), repeat=n - 1):
                        ts = [0.0] + times(gaps)
                        for fb in (FB[0], FB[2], FB[5]):
                            for w in waits(ts):
                                sp = (prop, 'p', tuple(sorted([S(x, *p) for x, p in zip(ts, ps)] + w,
                                                              key=lambda e: e[1])), fb, ())
                                yield scaled(sp, t) if t else sp[:4] + ((('T', 0),),)

    def failures():
        for n in (5, 6, 8, 12, 40, 400) if th else (6, 12, 150):
            for codes in ('e', 'bc', 'me', 'ct', 'Mt'):
                for d in (0, 0.5) if n < 100 else (0,):
                    fb = tuple((d, codes[i % len(codes)]) for i in range(n))
                    if 'M' in codes:
                        fb = tuple((d, c if c != 'M' or i == 0 else 'e') for i, (d, c) in enumerate(fb))
                    for gap in (None, 0.5, 1.25, 4.0, n * 1.5):
                        for w in waits([0.0, gap or 0.0]):
                            yield (prop, 'p', tuple(sorted([S(0.0)] + ([S(gap)] if gap else []) + w,
                                                           key=lambda e: e[1])), fb, ())

    def slow():
        for d in (15.0, 45.0, 70.0, 500.0, 4000.0):
            for code in 've':
                for gap in (0.0, 1.25, 20.0, 65.0, 450.0):
                    for fb in (((d, code),), ((0.5, 'e'), (d, code), (d, 'v'))):
                        for w in waits([0.0, gap]):
                            yield (prop, 'p', tuple(sorted([S(0.0), S(gap)] + w, key=lambda e: e[1])), fb, ())
    def close():
        # submissions and waits separated by single iterations of the loop
        K = range(0, 9)
        for c in (True, False):
            for k1 in K:
                for p in MINI + [PRODS[6], PRODS[13]]:
                    for fb in (FB[0], FB[2]):
                        for t in (0.0, 0.25, 1.0):
                            yield (prop, 'p', (S(0.0), W(t, c), ('y', t, k1), S(t, *p)), fb, ())
                            yield (prop, 'p', (S(0.0), S(t, *p), ('y', t, k1), W(t, c)), fb, ())
                        for k2 in K if th else (1, 2, 4):
                            yield (prop, 'p', (S(0.0), ('y', 0.0, k2), W(0.0, c), ('y', 0.0, k1), S(0.0, *p),
                                               W(0.0, True)), fb, ())
                            yield (prop, 'p', (S(0.0), W(0.0, c), ('y', 0.0, k2), W(0.0, not c), ('y', 0.0, k1),
                                               S(0.0, *p)), fb, ())
    return [Group('single iterations between submission and wait', close), Group('other timeouts', other), Group('many failures in a row', failures),
            Group('very long calls', slow)]


def pieces(prop, th):
    """the loop is run piece by piece"""
    def gen():
        subs = [('s', 'c', 1, None, 0), ('s', 'g', 2, None, 0), ('s', 'a', 1, None, 0.5)]
        runs = [('R', 0), ('R', 0.5), ('R', 1.25), ('W', True), ('W', False), ('P', 2.5), ('B', 'c', 1, 0),
                ('B', 'm', 2, 0.25)]
        for n in (1, 2, 3, 4) if th else (1, 2, 3):
            for sel in itertools.product(subs + runs, repeat=n):
                if n == 4 and not any(x[0] in 'sB' for x in sel[:2]):
                    continue
                for fb in (FB[0], FB[1], FB[2]):
                    for form in ('opt', 'dec') if n < 3 else ('opt',):
                        yield (prop, 'q', sel, fb, (('form', form),))
        for sel in itertools.product(subs[:1] + [runs[i] for i in (1, 2, 3, 5)], repeat=4 if not th else 6):
            if sel[0][0] == 's':
                for fb in (FB[0], FB[2]):
                    yield (prop, 'q', sel, fb, ())
    return [Group('the loop is run piece by piece', gen)]


def large(prop, th):
    """many submissions, many elements, many waiters"""
    def gen():
        sizes = (9, 65, 130, 600, 1100) if th else (9, 130, 600)
        for n in sizes:
            for k in 'camgir':
                for fb in ((), ((0.5, 'e'), (0.5, 'v'))):
                    # at once, as a trickle, as one large iterable
                    yield (prop, 'p', tuple(S(0.0, k) for _ in range(n)) + (W(0.0), S(3.0)), fb, ())
                    yield (prop, 'p', tuple(S(i * 0.03, k) for i in range(n)) + (W(n * 0.03, False),), fb, ())
                    if k not in 'ca':
                        yield (prop, 'p', (S(0.0, k, n), S(0.0, k, n), W(0.25), S(1.5, k, n), W(1.75, False)), fb, ())
            for c in (True, False):
                for fb in ((), ((0.5, 'e'), (0.5, 'v'))):
                    yield (prop, 'p', (S(0.0),) + tuple(W(i * 0.01, c) for i in range(n)) + (S(8.0), W(8.0)), fb, ())
                    yield (prop, 'p', (S(0.0),) + tuple(W(0.25, c) for i in range(n)) + (S(8.0), W(8.0)), fb, ())
                    yield (prop, 'p', sum(((S(i * 0.5), W(i * 0.5, c)) for i in range(min(n, 130))), ()), fb, ())
    def burst():
        # far more than anything should be able to hold back, at once: while the
        # buffer is idle, while the function runs and as it ends, from the
        # function itself and from another thread
        for n in (2500, 12000) if not th else (1500, 2500, 5000, 12000, 70000):
            for fb in ((), ((0.5, 'v'),)) if n < 5000 else (((0.5, 'v'),),):
                for k in 'cmiga' if n < 5000 else 'ci':
                    if k in 'ca':
                        many = lambda at: tuple(S(at, k) for _ in range(n))
                    else:
                        many = lambda at: (S(at, k, n),)
                    yield (prop, 'p', many(0.0) + (W(0.0), S(3.0)), fb, ())
                    yield (prop, 'p', (S(0.0),) + many(1.25) + (W(1.25, False),), fb, ())
                    yield (prop, 'p', (S(0.0), W(0.5, False)) + many(('f', 0)), fb, ())
                    yield (prop, 'p', (S(0.0), W(0.5, False)) + many(('F', 0)), fb, ())
                    if k in 'mi' or n < 5000:
                        yield (prop, 'p', (S(0.0),) + many(0.25) + (S(1.0), S(1.75)), fb, ())
                        yield (prop, 'p', many(0.0) + many(0.5) + (S(1.25), S(1.5), W(4.0)), fb, ())
                if n < 5000:
                    yield (prop, 'i', (S(0.0),), (((0.5, 'm', n), (1.25, 'm', n)),), fb, ())
                    yield (prop, 'i', (S(0.0),), (((1.25, 'g', n), (2.5, 'c', 1)),), fb, ())
    def slow():
        # producers and calls which take minutes and hours
        for d in (61, 130, 400, 1000, 4000):
            for k, n in (('a', 1), ('g', 1), ('g', 3), ('n', 2), ('i', 2)):
                for fail in (None, 'e', 'c'):
                    for fb in ((), ((0.5, 'e'), (0.5, 'v')), ((d * 0.7, 'v'),), ((d * 1.4, 'e'), (d * 0.3, 'v'))):
                        p = S(0.0, k, n, fail, d)
                        yield (prop, 'p', (p, W(0.0)), fb, ())
                        yield (prop, 'p', (p, W(0.5, False), S(d * 0.5), S(d * 1.0 + 0.25, 'a', 1, None, d)), fb, ())
                        yield (prop, 'p', (S(0.0), p, S(0.75), S(2.5), W(2.75), S(d * 2 + 3.25), W(d * 2 + 3.5, False)),
                               fb, ())
    return [Group('many submissions, elements and waiters', gen), Group('bursts of thousands', burst),
            Group('producers and calls of minutes and hours', slow)]


def single_loop(prop, th, waits):
    """programs over submissions; waits: list of wait variants to add"""
    def one_two():
        for n in (1, 2):
            for ps in itertools.product(PRODS, repeat=n):
                for gaps in itertools.product((0, 0.5, 1.0, 1.75), repeat=n - 1):
                    ts = times(gaps, 0.0) if n > 1 else []
                    ts = [0.0] + ts
                    for fb in (FB if n == 1 else FB[:1] + FB[2:4] + FB[5:6] if not th else FB):
                        for w in waits(ts):
                            yield (prop, 'p', tuple(sorted([S(t, *p) for t, p in zip(ts, ps)] + w,
                                                           key=lambda e: e[1])), fb, ())

    def three():
        for n in (3, 4) if th else (3,):
            for ps in itertools.product(FEW if n == 3 else MINI, repeat=n):
                for gaps in itertools.product((0, 0.5, 1.0, 1.75) if th and n == 3 else (0, 0.75, 1.5), repeat=n - 1):
                    ts = [0.0] + times(gaps)
                    for fb in (FB if th else FB[0:1] + FB[2:3]):
                        for w in waits(ts)[:(None if th else 2)]:
                            yield (prop, 'p', tuple(sorted([S(t, *p) for t, p in zip(ts, ps)] + w,
                                                           key=lambda e: e[1])), fb, ())

    def nested():
        # submissions made by the function itself, while it runs and as it ends
        for fb in FB[:6]:
            for p0 in MINI:
                for p1 in FEW:
                    for at in (('f', 0), ('F', 0), ('f', 1), ('F', 1)):
                        for extra in ([], [S(0.5)], [S(1.25)], [S(3.25)]):
                            for w in waits([0.0, 1.25]):
                                yield (prop, 'p', tuple([S(0.0, *p0)] + sorted(extra + w, key=lambda e: e[1]) +
                                                        [S(at, *p1)]), fb, ())

    def values():
        for v in ('same', 'falsy', 'odd'):
            for n in (2, 3, 4):
                for gaps in itertools.product((0, 0.5, 1.75, 3.25), repeat=n - 1):
                    ts = [0.0] + times(gaps)
                    for fb in FB[:4] + FB[5:6]:
                        yield (prop, 'p', tuple(S(t) for t in ts), fb, (('values', v),))
            for p in PRODS:
                for form in ('dec', 'cls', 'opt'):
                    yield (prop, 'p', (S(0.0, *p), S(0.25, *p), S(2.75, *p)), FB[2],
                           (('values', v), ('form', form)))

    def twin():
        for n in (1, 2):
            for ps in itertools.product(PRODS if n == 1 else FEW, repeat=n):
                for gaps in itertools.product((0, 0.5, 1.75), repeat=n - 1):
                    ts = [0.0] + times(gaps)
                    for fb in FB:
                        for w in waits(ts)[:3]:
                            yield (prop, 'p', tuple(sorted([S(t, *p) for t, p in zip(ts, ps)] + w,
                                                           key=lambda e: e[1])), fb, (('twin', True),))

    def producers():
        # producers which submit something themselves
        own = [('n', k, f, d) for k in (1, 2, 3) for f in (None, 'e', 'b') for d in (0, 0.5, 1.25)]
        for p in own:
            for q in [None] + FEW + own[:1] + own[10:11]:
                for gap in (0, 0.5, 1.75) if q else (0,):
                    for fb in (FB[0], FB[2], FB[5]):
                        for w in waits([0.0, gap]):
                            yield (prop, 'p', tuple(sorted([S(0.0, *p)] + ([S(gap, *q)] if q else []) + w,
                                                           key=lambda e: e[1])), fb, ())

    def bursts():
        for n in (5, 6, 8, 10) if th else (5, 7):
            for gaps in itertools.product((0, 0.75, 1.75), repeat=n - 1):
                if sum(g > 1 for g in gaps) > 2 or sum(g > 0 for g in gaps) > 4:
                    continue
                ts = [0.0] + times(gaps)
                for kinds in ('c' * n, ('cm' * n)[:n], ('acg' * n)[:n], ('ci' * n)[:n]):
                    for fb in (FB[0], FB[2]):
                        yield (prop, 'p', tuple(S(t, k) for t, k in zip(ts, kinds)), fb, ())
    return [Group('two buffers', twin), Group('producers which submit', producers),
            Group('1..2 producers of every kind', one_two), Group('3 producers' if not th else '3..4 producers', three),
            Group('submissions by the function', nested), Group('falsy and equal values', values),
            Group('longer histories', bursts)]


def interleavings(prop, th):
    fbs = [(), ((0.5, 'v'),), ((0, 'e'), (0.5, 'v'))]

    def base():
        wl = {'C03': [()], 'C08': [()], 'C07': [(), (W(1.25, False),), (W(1.0, True),)]}[prop]
        for fb in fbs:
            dur = fb[0][0] if fb else 0
            ats = sorted({0.0, 0.5, 1.0, 1.0 + dur, 1.5 + dur, 2.0 + dur})
            for at in ats:
                for op in 'cmiga' if prop == 'C03' else 'cg':
                    for w in wl:
                        ops = [(at, op, 1)]
                        if prop == 'C07':
                            for c in (True, False):
                                yield (prop, 'i', (S(0.0),) + w, ((*ops, (at, 'w', c)),), fb, ())
                        else:
                            yield (prop, 'i', (S(0.0),) + w, (tuple(ops),), fb, ())

    def two():
        for fb in fbs:
            dur = fb[0][0] if fb else 0
            for a, b in ((0.0, 1.0), (1.0, 1.0 + dur), (1.0, 1.0), (0.5, 2.0 + dur)):
                if prop == 'C07':
                    for c in (True, False):
                        yield (prop, 'i', (S(0.0),), (((a, 'c', 1), (b, 'w', c)), ((b, 'c', 1), (b, 'w', True))), fb, ())
                else:
                    yield (prop, 'i', (S(0.0), S(1.5)), (((a, 'c', 1), (b, 'c', 1)), ((b, 'g', 2),)), fb, ())

    def free():
        # blocking switches are free: every order in which ready threads run
        for fb in fbs[:2]:
            for a, b in ((0.0, 1.0), (1.0, 1.0), (1.0, 2.0)):
                extra = ((b, 'w', True),) if prop == 'C07' else ()
                yield (prop, 'i', (S(0.0),), (((a, 'c', 1), (b, 'c', 1)) + extra, ((b, 'c', 1),)), fb,
                       (('free_block', True),))

    return [Group('one foreign thread, interleavings', base, 'explore', bounds=(1, 2) if th else (1,)),
            Group('two foreign threads, interleavings', two, 'explore', bounds=(1, 2) if th else (1,)),
            Group('free blocking switches', free, 'explore', bounds=(0, 1))]


def groups(prop, tier):
    th = tier == 'thorough'
    if prop == 'C03':
        def waits(ts):
            return [[], [W(ts[-1] + 0.25)], [W(0.5, False)]]
        return single_loop(prop, th, waits) + timeouts(prop, th, waits) + pieces(prop, th) + large(prop, th) + \
            interleavings(prop, th)
    if prop == 'C08':
        def waits(ts):
            return [[], [W(ts[0] + 0.25, False)], [W(ts[-1] + 0.25)]]

        def plain():
            # plain calls and immediate iterables only: the debouncing itself
            for n in range(1, 6):
                G = (0, 0.3, 0.75, 1.75, 2.9)
                for gaps in itertools.product(G if n < 5 else G[1:4], repeat=n - 1):
                    ts = [0.0] + times(gaps)
                    for kinds in ('c' * n, ('cim' * n)[:n]):
                        for fb in ((), ((0.55, 'v'), (2.15, 'v')), ((0.05, 'e'),), ((3.15, 'v'),)):
                            for w in ([], [W(0.1, False)]):
                                yield (prop, 'p', tuple(sorted([S(t, k) for t, k in zip(ts, kinds)] + w,
                                                               key=lambda e: e[1])), fb, ())

        def many():
            # large bursts at one instant, followed by others
            sizes = (1, 2, 12, 40, 130) if th else (1, 12, 130)
            for ns in itertools.product(sizes, repeat=3):
                for g in itertools.product((0.0, 0.3, 0.75, 1.75) if th else (0.3, 0.75, 1.75), repeat=2):
                    ts = [0.0] + times(g)
                    for kinds in ('ccc', 'icg', 'cmi', 'gac') if th else ('ccc', 'icg'):
                        for fb in ((), ((0.2, 'e'), (0.2, 'v'))):
                            yield (prop, 'p', tuple(S(t, k) for t, k, n in zip(ts, kinds, ns) for _ in range(n)),
                                   fb, ())
            for n in (150, 700):
                for g in (0.05, 0.95):
                    for k in 'ci':
                        yield (prop, 'p', tuple(S(i * g, k) for i in range(n)), (), ())
            for k in 'migr':
                for n in (9, 130, 1100):
                    yield (prop, 'p', (S(0.0, k, n), S(0.75), S(1.5, k, n), S(1.5, k, n)), (), ())
            for n in (8, 12, 20, 33) if th else (8, 12, 33):
                for g in (0.05, 0.5, 0.95):
                    for pos in range(1, n) if n < 20 else (n - 1, n // 2, 0):
                        ts = [0.0] + times([1.45 if i == pos else g for i in range(1, n)])
                        for k in 'ci':
                            for fb in ((), ((0.2, 'e'), (0.2, 'v'))):
                                yield (prop, 'p', tuple(S(t, k) for t in ts), fb, ())
        return [Group('debounce timing, 1..5 immediate submissions', plain), Group('long bursts', many)] + \
            timeouts(prop, th, waits) + single_loop(prop, th, waits) + pieces(prop, th) + large(prop, th)[1:] + interleavings(prop, th)
    if prop == 'C07':
        def waits(ts):
            out = []
            for c in (True, False):
                out += [[W(ts[0], c)], [W(ts[-1] + 0.25, c)], [W(ts[0] + 1.0, c)],
                        [W(ts[-1] + 1.5, c), W(ts[-1] + 1.5, not c)]]
            out.append([W(0.0), W(0.5, False), W(ts[-1])])
            out.append([W(0.25, False, 0.5), W(ts[-1] + 0.25)])
            out.append([W(0.25, True, 0.5), W(0.25, False), W(ts[-1] + 2.5)])
            return out

        def waits_small(ts):
            return [[W(ts[-1] + 0.25)], [W(ts[-1] + 0.25, False), W(ts[-1] + 0.5)]]

        def fullwaits():
            for p in PRODS:
                for fb in FB:
                    for t in (0.0, 0.25, 0.5, 1.0, 1.25, 1.5, 2.0, 2.25, 3.5):
                        for c in (True, False):
                            for t2 in (None, 0.0, 0.25, 1.25):
                                w = [W(t, c)] + ([W(t + t2, True)] if t2 is not None else [])
                                yield (prop, 'p', tuple([S(0.0, *p)] + w), fb, ())

        def between():
            # wait() at every instant around submissions, several waiters
            for p0, p1 in itertools.product(MINI, repeat=2):
                for g in (0.0, 0.5, 1.25):
                    for ws in itertools.product((0.0, 0.5, 1.0, 1.25, 2.0), repeat=2):
                        for cs in itertools.product((True, False), repeat=2):
                            for fb in FB[:3]:
                                evs = [S(0.0, *p0), S(g, *p1)] + [W(t, c) for t, c in zip(ws, cs)]
                                yield (prop, 'p', tuple(sorted(evs, key=lambda e: e[1])), fb, ())

        def shutdown():
            ats = (0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.25, 3.25)
            for how in 'xe':
                for k in range(0, 6 if th else 5):
                    for p in PRODS:
                        for fb in ((), ((0.5, 'v'),), ((0.5, 'e'),)):
                            for at in ats:
                                yield (prop, 'p', (S(0.0, *p), (how, at, k)), fb, ())
                    for p0, p1 in itertools.product(FEW, repeat=2):
                        for g in (0.0, 0.5):
                            for at in ats[2:]:
                                yield (prop, 'p', (S(0.0, *p0), S(g, *p1), (how, at, k)), ((0.5, 'e'),), ())
                    for w in (W(0.0), W(0.0, False)):
                        for p in FEW:
                            for fb in ((), ((0.5, 'e'), (0.5, 'v'))):
                                for at in ats:
                                    yield (prop, 'p', (S(0.0, *p), w, (how, at, k)), fb, ())
                    for at in ats[:3]:
                        yield (prop, 'p', ((how, at, k),), (), ())
        def idle():
            for fb in ((), ((0.5, 'v'),), ((0.25, 'e'), (0.25, 'v'))):
                for c in (True, False):
                    for pre in ((), (S(0.0),)):
                        for op in 'cg':
                            yield (prop, 'i', pre, (((0.0, op, 1), (0.0, 'w', c)),), fb, (('idle', True),))
                        yield (prop, 'i', pre, (((0.0, 'c', 1), (0.0, 'w', c)), ((0.5, 'c', 1), (0.5, 'w', c))), fb,
                               (('idle', True),))
                        yield (prop, 'i', pre, (((0.0, 'c', 1), (0.0, 'w', c), (3.0, 'c', 1), (3.0, 'w', c)),
                                                ((0.0, 'w', True),)), fb, (('idle', True),))
        return [Group('one producer, wait at every instant', fullwaits),
                Group('two producers, two waiters', between),
                Group('shutdown at every instant', shutdown)] + \
            timeouts(prop, th, waits_small) + pieces(prop, th) + large(prop, th) + \
            single_loop(prop, th, waits if th else waits_small) + interleavings(prop, th) + \
            [Group('nobody runs the loop', idle, 'explore', bounds=(1, 2) if th else (1,))]
    raise AssertionError(prop)

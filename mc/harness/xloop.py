"""
C17: ensure_aw, run_aw_threadsafe, loop_in_thread under all interleavings of
2..4 threads (virtual time, real code).

  spec: ('C17', target, callers, lits, opts)

  target: 'idle'       nobody runs it
          'lit'        loop_in_thread before the callers, stopped after them
          ('run', d)   a thread runs it from time 0 until time d
          'own'        it is the loop of caller 0
          'closed'
  callers: tuple of (start, calls, cancel_at); calls run concurrently on the
          caller's loop, each (api, kind, dur, outcome)
          api: 'e' ensure_aw, 'r' run_aw_threadsafe
          kind: 'c' coroutine, 't' task, 'f' future, 'o' awaitable object,
                'e' future set by the caller's loop while it waits,
                'l' future set by the thread which called loop_in_thread, once it returned
                'n' coroutine that itself awaits something on the caller's loop
  lits:   tuple of (start, hold[, busy]): loop_in_thread at `start`, stop after
          `hold`, at which time a callback blocks the loop for `busy`
  opts:   instr, stall, free_block; ('others', n): n other loops are run by
          loop_in_thread at the same time; ('series', n): n loops have been used
          before, one after another; ('failed', n): loop_in_thread has failed n
          times for loops with the same id; ('horizon', t), ('max_steps', n),
          ('lines', False): limits of long programs;
          ('twice', True): stop functions are called again and by two threads
"""
import asyncio as aio
import builtins
import concurrent.futures as cf
import itertools
import threading
import time
import weakref

from .. import vrt, explore
from ..check import Group

LEVEL = {'C17': 'model_checking'}
ASSUMPTIONS = {'C17': ['fewer than 32 loops are run by the helpers at the same time (size of their pool)',
                       'the target loop is run only by the helpers, or by one thread of the user which does not '
                       'start it while a helper runs it',
                       'a call is late if it completes more than 0.25 s (virtual) after its awaitable']}
LATE = 0.25


# results which are neither fresh lists nor raised
VALUES = ('none', 'exval', 'baseval', 'cancelval', 'oddval', 'clsval', 'pair', 'awval', 'futval', 'zero', 'empty')


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Odd(Exception):
    """never true"""

    def __bool__(self):
        return False


class Special(Exception):
    """can't be made again from its args, isn't equal to anything"""

    def __init__(self, a, b):
        super().__init__('a message')
        self.a, self.b = a, b

    def __eq__(self, other):
        raise AssertionError('exceptions are compared')

    __hash__ = None


def caused(n):
    e = Boom(n)
    e.__cause__ = KeyError(n)
    return e


def context(n):
    try:
        try:
            raise KeyError(n)
        except KeyError:
            raise Boom(n)
    except Boom as e:
        return e


def suppressed(n):
    e = context(n)
    e.__suppress_context__ = True
    return e


EXCS = {'caused': caused, 'context': context, 'suppressed': suppressed, 'special': lambda n: Special(n, 1),
        'stopasync': StopAsyncIteration, 'runtime': lambda n: RuntimeError('Event loop is closed'),
        'exit': lambda n: aio.QueueEmpty(), 'os': lambda n: OSError(4, 'x'), 'eof': lambda n: aio.IncompleteReadError(b'', n),
        'warning': UserWarning, 'asserted': AssertionError, 'recursion': RecursionError, 'memory': MemoryError}
if hasattr(builtins, 'ExceptionGroup'):
    EXCS['group'] = lambda n: builtins.ExceptionGroup('g', [Boom(n), aio.TimeoutError(n)])


class Ids:
    """id() which gives the id of a dead loop to the next one"""

    def __init__(self):
        self.known = weakref.WeakKeyDictionary()
        self.free = []

    def __call__(self, o):
        if not isinstance(o, aio.AbstractEventLoop):
            return id(o)
        n = self.known.get(o)
        if n is None:
            if not self.free:
                self.free.append(len(self.known) + 1)
            n = self.known[o] = self.free.pop()
            weakref.finalize(o, self.free.append, n)
        return n


class Obj:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Never:
    """an awaitable which nobody asked to await"""

    def __init__(self, sc, c):
        self.sc, self.c = sc, c

    def __await__(self):
        self.sc.bad.append(f'the result of call {self.c.id} was awaited')
        return iter(())


class Call:
    __slots__ = ('id', 'api', 'kind', 'dur', 'how', 'value', 'runs', 'done', 'end', 'got', 'start', 'aw', 'cancelled',
                 'where', 'cause')


class XScenario(explore.Scenario):
    def __init__(self, spec):
        self.spec = spec
        _, self.target_kind, self.callers, self.lits, o = spec
        self.o = dict(o)
        self.opts = {'max_steps': self.o.get('max_steps', 40000), 'horizon': self.o.get('horizon', 12.0),
                     'lines': self.o.get('lines', True), 'instr': self.o.get('instr', False),
                     'stall': self.o.get('stall', False), 'free_block': self.o.get('free_block', False),
                     'fair': self.o.get('fair', 400)}

    def __repr__(self):
        return f'XScenario({self.spec!r})'

    def setup(self, s):
        self.s = s
        self.bad = []
        self.calls = []
        self.hist = []
        self.lit_now = 0
        self.alive = 0
        self.busy = False
        self.stage = 'start'
        self.m = explore.fresh('aiuti.asyncio')
        self.ids = self.m.id = Ids()

    # -- awaitables ----------------------------------------------------
    async def work(self, c, cl):
        c.runs += 1
        self.on_target(c)
        try:
            if c.kind == 'n':
                async def inner():
                    await aio.sleep(0.02)
                    return aio.get_running_loop()
                if await self.m.ensure_aw(inner(), cl) is not cl:
                    self.bad.append('a nested ensure_aw was evaluated on another loop')
            elif c.dur == 'y':
                await aio.sleep(0)
            elif c.dur:
                await aio.sleep(c.dur)
            self.on_target(c)
            if c.how == 'ok':
                return c.value
            raise c.value
        finally:
            c.done = self.s.now

    def on_target(self, c):
        if aio.get_running_loop() is not self.target:
            self.bad.append(f'awaitable {c.id} is evaluated on another loop than the target')

    def make(self, c, cl):
        t = self.target
        if c.kind in 'cn':
            return self.work(c, cl)
        if c.kind == 'o':
            return Obj(self.work(c, cl))
        if c.kind == 't':
            return t.create_task(self.work(c, cl))
        fut = t.create_future()

        def fire():
            if not fut.done():
                c.runs += 1
                c.done = self.s.now
                if c.how == 'ok':
                    fut.set_result(c.value)
                elif isinstance(c.value, aio.CancelledError):
                    fut.cancel()
                else:
                    fut.set_exception(c.value)
        if c.kind == 'f':
            if c.dur == 0:
                fire()
            else:
                t.call_later(c.dur, fire)
        else:
            c.where = fire
        return fut

    def call(self, spec, cl=None):
        c = Call()
        c.api, c.kind, c.dur, c.how = spec
        c.id = len(self.calls)
        c.runs = 0
        c.done = c.end = c.got = c.where = None
        c.cancelled = False
        c.value = {'ok': lambda: [c.id], 'none': lambda: None, 'exc': lambda: Boom(c.id), 'base': lambda: Base(c.id),
                   'cancel': lambda: aio.CancelledError(), 'timeout': lambda: TimeoutError(c.id),
                   'cfcancel': lambda: cf.CancelledError(c.id), 'invalid': lambda: cf.InvalidStateError(c.id),
                   'odd': lambda: Odd(c.id), 'exval': lambda: ValueError(c.id), 'baseval': lambda: Base(c.id),
                   'cancelval': lambda: aio.CancelledError(c.id), 'oddval': lambda: Odd(c.id),
                   'clsval': lambda: aio.CancelledError, 'pair': lambda: (None, Boom(c.id)),
                   'awval': lambda: Never(self, c), 'futval': lambda: cf.Future(), 'zero': lambda: 0,
                   'empty': lambda: (),
                   'lookup': lambda: KeyError('k', c.id),
                   **{k: lambda v=v: v(c.id) for k, v in EXCS.items()}}[c.how]()
        c.cause = getattr(c.value, '__cause__', None)
        if c.how in VALUES:
            c.how = 'ok'
        self.calls.append(c)
        c.aw = None
        return c

    # -- threads ---------------------------------------------------------
    def before(self, i):
        """another loop is used and destroyed"""
        target = aio.new_event_loop()
        m = self.m
        got = []

        async def aw(v):
            await aio.sleep(0.01)
            return v, aio.get_running_loop() is target

        async def main():
            got.append(await m.ensure_aw(aw(i), target))
        stop = m.loop_in_thread(target) if i % 3 else None
        if stop and not target.is_running():
            self.bad.append(f'loop {i}: loop_in_thread returned but the loop is not running')
        if i % 3 < 2:
            aio.run(main())
        if stop:
            stop()
            if target.is_running():
                self.bad.append(f'loop {i}: still running after its stop function has returned')
            if i % 2:
                aio.run(main())
                stop = m.loop_in_thread(target)
                if not target.is_running():
                    self.bad.append(f'loop {i}: loop_in_thread returned but the loop is not running')
                stop()
                if target.is_running():
                    self.bad.append(f'loop {i}: still running after its stop function has returned')
        if any(g != (i, True) for g in got):
            self.bad.append(f'ensure_aw for loop {i} gave {got}')
        time.sleep(1.0)
        target.close()

    def after_failure(self):
        """loop_in_thread fails for a loop, the target loop is one with the same id"""
        self.target.close()
        key = self.ids(self.target)
        try:
            self.m.loop_in_thread(self.target)
        except RuntimeError:
            pass
        else:
            self.bad.append('loop_in_thread accepts a closed loop')
        time.sleep(0.5)
        self.s.vloops.remove(self.target)
        self.target = None
        # the thread of the pool keeps a loop until it gets another one
        other = aio.new_event_loop()
        self.m.loop_in_thread(other)()
        other.close()
        vrt.gc.collect()
        self.target = aio.new_event_loop()
        if self.ids(self.target) == key:
            self.hist.append('same id')

    def root(self):
        s = self.s
        for i in range(self.o.get('series', 0)):
            self.before(i)
            vrt.gc.collect() if i % 2 else None
        self.target = aio.new_event_loop()
        for i in range(self.o.get('failed', 0)):
            self.after_failure()
        ts = []
        prep = []
        for start, specs, cancel in self.callers:
            cs = []
            for sp in specs:
                c = self.call(sp)
                if c.kind in 'tfl':
                    c.aw = self.make(c, None)
                cs.append(c)
            prep.append(cs)
        if self.target_kind == 'closed':
            self.target.close()
        stop = None
        if self.target_kind == 'lit':
            stop = self.lit()
        if isinstance(self.target_kind, tuple):
            t = threading.Thread(target=self.user_run, args=(self.target_kind[1],), name='user')
            t.start()
            ts.append(t)
        for k, ((start, _, cancel), cs) in enumerate(zip(self.callers, prep)):
            ts.append(threading.Thread(target=self.caller, args=(k, start, cs, cancel), name=f'caller{k}'))
            self.alive += 1
        for k, sh in enumerate(self.lits):
            ts.append(threading.Thread(target=self.lit_thread, args=(k, *sh), name=f'lit{k}'))
        others = [aio.new_event_loop() for _ in range(self.o.get('others', 0))]
        stops = [self.m.loop_in_thread(o) for o in others]
        for t in ts:
            if not t.ident:
                t.start()
        for t in ts:
            t.join()
        for st, o in zip(stops, others):
            if not o.is_running():
                self.bad.append('another loop does not run although loop_in_thread has returned')
            st()
            if o.is_running():
                self.bad.append('another loop runs although its stop function has returned')
            o.close()
        if stop is not None:
            self.stop(stop)
        self.stage = 'probe'
        if self.target_kind not in ('closed', 'own'):
            # the loop is usable afterwards
            c = self.call(('e', 'c', 0.05, 'ok'))
            self.alive += 1
            self.caller(9, 0, [c], None)
            if self.target.is_running():
                # a helper may need a moment to leave the loop
                time.sleep(1.0)
            if self.target.is_running():
                self.bad.append('the target loop is still running after all calls have completed')
            else:
                self.target.close()
        self.stage = 'end'

    def user_run(self, d):
        self.target.run_until_complete(aio.sleep(d))

    def caller(self, k, start, cs, cancel):
        try:
            if start:
                time.sleep(start)
            if self.target_kind == 'own' and k == 0:
                aio.set_event_loop(self.target)
                self.target.run_until_complete(self.main(k, cs, cancel))
            else:
                aio.run(self.main(k, cs, cancel))
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            self.bad.append(f'the loop of caller {k} ended with {e!r}')
        finally:
            self.alive -= 1

    async def main(self, k, cs, cancel):
        cl = aio.get_running_loop()
        ts = [cl.create_task(self.one(c, cl)) for c in cs]
        for c in cs:
            if c.kind == 'e':
                cl.call_later(c.dur, lambda c=c: self.target.call_soon_threadsafe(c.where))
        if cancel is not None:
            def cancel_first():
                cs[0].cancelled = True
                ts[0].cancel()
            cl.call_later(cancel, cancel_first)
        await aio.wait(ts)

    async def one(self, c, cl):
        c.start = self.s.now
        try:
            aw = c.aw if c.aw is not None else self.make(c, cl)
            if self.target_kind == 'closed' and aio.iscoroutine(aw):
                self.coro = aw
            r = await (self.m.ensure_aw if c.api == 'e' else self.m.run_aw_threadsafe)(aw, self.target)
            c.got = ('ok', r)
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            c.got = ('exc', e)
        c.end = self.s.now
        self.hist.append((c.id, c.end, c.got[0]))

    def lit(self):
        s = self.s
        self.lit_now += 1     # (or is about to)
        stop = self.m.loop_in_thread(self.target)
        if not self.target.is_running():
            self.bad.append(f'loop_in_thread returned but the loop is not running (at {s.now})')
        ev = threading.Event()
        self.target.call_soon_threadsafe(ev.set)
        if not ev.wait(1.0):
            self.bad.append('the loop does not process callbacks although loop_in_thread has returned')
        return stop

    def stop(self, stop):
        stop()
        self.lit_now -= 1
        if self.target.is_running() and not self.alive and not self.lit_now:
            self.bad.append(f'the stop function returned but the loop is still running (at {self.s.now})')

    def stop_twice(self, stop):
        # by another thread at the same time, and once more later
        t = threading.Thread(target=stop, name='stopper')
        t.start()
        self.stop(stop)
        t.join()
        stop()

    def lit_thread(self, k, start, hold, busy=0):
        if start:
            time.sleep(start)
        try:
            if self.target_kind == 'closed':
                try:
                    self.m.loop_in_thread(self.target)
                except RuntimeError:
                    pass
                else:
                    self.bad.append('loop_in_thread accepts a closed loop')
                return
            st = self.lit()
            for c in self.calls:
                if c.kind == 'l' and c.where is not None:
                    self.target.call_soon_threadsafe(c.where)
                    c.where = None
            if hold:
                time.sleep(hold)
            if busy:
                def block():
                    self.busy = True
                    time.sleep(busy)
                    self.busy = False
                self.target.call_soon_threadsafe(block)
            (self.stop_twice if self.o.get('twice') else self.stop)(st)
            if busy and self.busy:
                self.bad.append('the stop function returned but a callback of the loop is still running')
            self.hist.append(('lit', k, self.s.now))
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            self.bad.append(f'loop_in_thread or its stop function raised {e!r}')

    # -- judgement --------------------------------------------------------
    def check(self, s):
        bad = list(self.bad)
        if s.double_run:
            bad.append('two threads ran the same event loop at once')
        for c in self.calls:
            what = f'call {c.id} ({c.api} {c.kind} {c.dur} {c.how})'
            if c.got is None:
                if s.status != 'ok':
                    bad.append(f'{what} never completes ({s.status}; awaitable '
                               f'{"completed at %s" % c.done if c.done is not None else "not completed"})')
                continue
            if c.cancelled and not (c.done is not None and c.done < c.end):
                continue
            if self.target_kind == 'closed':
                if not (c.got[0] == 'exc' and isinstance(c.got[1], RuntimeError)):
                    bad.append(f'{what} on a closed loop: {c.got}')
                continue
            if c.how == 'ok':
                good = c.got[0] == 'ok' and c.got[1] is c.value
            else:
                good = c.got[0] == 'exc' and (
                    type(c.got[1]) is type(c.value) and c.got[1].args == c.value.args
                    if isinstance(c.value, aio.CancelledError) else c.got[1] is c.value)
            if not good:
                bad.append(f'{what} gave {c.got!r} instead of {c.value!r}')
            elif isinstance(c.value, Exception) and c.value.__cause__ is not c.cause:
                bad.append(f'{what}: the cause of its exception is {c.value.__cause__!r}, it was {c.cause!r}')
            if c.runs != 1:
                bad.append(f'{what}: evaluated {c.runs} times')
            if good and c.end > max(c.done, c.start) + LATE:
                bad.append(f'{what} completed at {c.end} although its awaitable completed at {c.done}')
        if s.status != 'ok' and not bad:
            bad.append(f'{s.status} in stage {self.stage}: loop_in_thread, its stop function or a loop never returns')
        return bad

    def outcome(self, s):
        return (s.status, tuple(map(str, self.hist)))

    def cleanup(self, s):
        for c in self.calls:
            c.aw = None
        c = getattr(self, 'coro', None)
        if c is not None:
            c.close()
        self.target = None


def make(spec):
    return XScenario(spec)


P = 'C17'


def groups(prop, tier):
    th = tier == 'thorough'

    def single():
        for tk in ('idle', 'lit', 'own', ('run', 0.6), ('run', 0.15), 'closed'):
            for kind in 'ctfoen':
                if tk == 'own' and kind == 'n':
                    continue
                for dur in (0, 'y', 0.1, 0.3):
                    if kind in 'fe' and dur == 'y' or kind == 'n' and dur != 0 or kind == 'e' and not dur:
                        continue
                    if tk == 'closed' and kind in 'e':
                        continue
                    for how in ('ok', 'exc', 'base', 'cancel', 'timeout', 'lookup', 'cfcancel', 'invalid',
                                'odd') + VALUES + tuple(EXCS):
                        if how in EXCS and (dur == 0.3 or kind == 'n'):
                            continue
                        if isinstance(tk, tuple) and kind == 't' and False:
                            continue
                        yield (P, tk, ((0.02, (('e', kind, dur, how),), None),), (), ())
                        if tk in ('lit', ('run', 0.6), 'closed'):
                            yield (P, tk, ((0.02, (('r', kind, dur, how),), None),), (), ())

    def several_calls():
        cs = [('e', 'c', 0, 'ok'), ('e', 'c', 0.1, 'exc'), ('e', 't', 0.2, 'ok'), ('e', 'f', 0.15, 'ok'),
              ('e', 'e', 0.12, 'ok'), ('e', 'n', 0, 'ok')]
        for tk in ('idle', 'lit', ('run', 0.11), 'own'):
            for n in (2, 3):
                for sel in itertools.combinations_with_replacement(cs, n):
                    if tk == 'own' and any(c[1] == 'n' for c in sel):
                        continue
                    yield (P, tk, ((0.02, sel, None),), (), ())

    C0, C1, C3 = ('e', 'c', 0, 'ok'), ('e', 'c', 0.1, 'ok'), ('e', 'c', 0.3, 'exc')

    def races_two():
        """two callers on an idle loop"""
        for a, b in itertools.combinations_with_replacement((C0, C1, C3, ('e', 't', 0.1, 'ok'), ('e', 'f', 0.2, 'ok'),
                                                             ('e', 'n', 0, 'ok'), ('e', 'e', 0.1, 'ok')), 2):
            yield (P, 'idle', ((0, (a,), None), (0, (b,), None)), (), ())
            if a[2] == 0.1 or b[2] == 0.3:
                # the second one arrives when the first one is about to finish, or while it runs
                for t in (0.05, 0.1):
                    yield (P, 'idle', ((0, (a,), None), (t, (b,), None)), (), ())

    def races_stop():
        """the loop stops while it is being used"""
        for d in (0.02, 0.1):
            for a in (C0, C1, ('e', 'f', 0.2, 'ok'), ('e', 't', 0.1, 'exc')):
                for t in (0.02, 0.1):
                    yield (P, ('run', d), ((t, (a,), None),), (), ())
                    yield (P, 'idle', ((t, (a,), None),), ((0, d),), ())

    def races_lit():
        for a in (C0, C1, C3, ('e', 'f', 0.2, 'ok')):
            for t in (0, 0.05):
                for hold in (0, 0.05, 0.5):
                    yield (P, 'idle', ((0, (a,), None),), ((t, hold),), ())
        for h1, h2 in ((0, 0), (0.1, 0.1), (0.1, 0.3)):
            yield (P, 'idle', (), ((0, h1), (0.5, h2)), ())
        yield (P, 'idle', (), ((0, 0),), ())
        yield (P, 'idle', (), ((0, 0.1),), ())
        for busy in (0.5, 7):
            for hold in (0, 0.1):
                yield (P, 'idle', (), ((0, hold, busy),), ())
        yield (P, 'idle', (), ((0, 0.1, 0.3), (0.15, 0.2, 0.2)), ())
        yield (P, 'closed', (), ((0, 0),), ())
        yield (P, 'idle', ((0, (C1,), None), (0, (C3,), None)), ((0.05, 0.1),), ())
        # it is needed to complete the awaitable
        yield (P, 'idle', ((0, (('e', 'e', 0.2, 'ok'),), None),), ((0.1, 0.05),), ())

    def races_needed():
        # somebody waits for what the caller of loop_in_thread is going to do
        L = ('e', 'l', 0, 'ok')
        for t in (0, 0.05):
            yield (P, 'idle', ((0, (L,), None),), ((t, 0.3),), ())
            for a in (C0, C1, ('e', 't', 0.05, 'ok')):
                yield (P, 'idle', ((0, (L,), None), (0, (a,), None)), ((t, 0.3),), ())
                yield (P, 'idle', ((0, (L, a), None),), ((t, 0.3),), ())
                yield (P, 'idle', ((0, (a,), None), (0.05, (L,), None)), ((t, 0.3),), ())
            yield (P, 'idle', ((0, (L,), None), (0, (L,), None)), ((t, 0.3),), ())
            yield (P, 'idle', ((0, (L,), None),), ((0, 0.05), (t, 0.3)), ())
        for h in (0, 0.1):
            for busy in (0, 0.3):
                yield (P, 'idle', (), ((0, h, busy),), (('twice', True),))
                yield (P, 'idle', ((0, (C1,), None),), ((0, h, busy),), (('twice', True),))
        yield (P, 'idle', (), ((0, 0.1), (0.3, 0.1)), (('twice', True),))

    def races_three():
        for tk in ('idle', 'lit', ('run', 0.1)):
            for sel in itertools.combinations_with_replacement((C0, C1, C3), 3):
                yield (P, tk, tuple((0.02 * (tk != 'idle'), (a,), None) for a in sel), (), ())
        for a, b in itertools.product((C0, C1, C3), repeat=2):
            yield (P, 'idle', ((0, (a, b), None), (0, (b,), None)), (), ())

    def own():
        for a, b in itertools.product((C0, C1, C3, ('e', 'c', 0.1, 'exc')), repeat=2):
            # (the second caller must not come before caller 0 runs its loop)
            yield (P, 'own', ((0, (a,), None), (0.02, (b,), None)), (), ())
            yield (P, 'own', ((0, (C1,), None), (0.05, (b,), None)), (), ())

    def cancelled():
        for tk in ('idle', 'lit', ('run', 0.12)):
            for at in (0, 0.05, 0.1):
                for b in (C0, C1, C3):
                    yield (P, tk, ((0.02, (C1,), at), (0.02, (b,), None)), (), ())
                    yield (P, tk, ((0.02, (C1, b), at),), (), ())

    def others():
        for n in (1, 3, 20):
            for tk in ('idle', 'lit', ('run', 0.11), 'own'):
                yield (P, tk, ((0.02, (C1, C3), None), (0.03, (C0,), None)), (), (('others', n),))
            yield (P, 'idle', ((0, (C1,), None),), ((0.05, 0.1),), (('others', n),))

    def long():
        big = (('horizon', 50000.0), ('max_steps', 900000), ('lines', False))
        for dur in (8, 45, 100, 700.25, 4000) if th else (8, 45, 100, 4000):
            for tk in ('idle', 'lit', 'own', ('run', dur / 2), ('run', dur * 2)):
                if dur > 1000 and isinstance(tk, tuple):
                    continue        # (waits by looking at it every 0.05 s)
                for kind in 'ctfe':
                    for how in ('ok', 'exc'):
                        yield (P, tk, ((0.02, (('e', kind, dur, how),), None),), (), big)
                        if tk in ('lit', ('run', dur * 2)):
                            yield (P, tk, ((0.02, (('r', kind, dur, how),), None),), (), big)
                yield (P, tk, ((0.02, (('e', 'c', dur, 'ok'),), None), (dur / 3, (C1, C3), None)), (), big)
            yield (P, 'idle', (), ((0, dur),), big)
            yield (P, 'idle', (), ((0, 0.1, dur),), big)
            yield (P, 'idle', ((0.02, (('e', 'c', dur, 'ok'),), None),), ((dur / 3, 0.1), (dur / 2, dur)), big)
        for n in (15, 40, 70):
            for tk in ('idle', 'lit', ('run', 0.11), 'own'):
                # many calls of one caller, many callers
                yield (P, tk, ((0.02, (C1, C3, C0) * (n // 3), None),), (), big)
                yield (P, tk, ((0.02, (('e', 'c', 2, 'ok'),) * n, None), (0.5, (C0,), None)), (), big)
                yield (P, tk, tuple((0.02 + i * 0.005, ((C1, C3, C0)[i % 3],), None) for i in range(n)), (), big)
            yield (P, 'idle', (), tuple((i * 0.5, 0.1) for i in range(n)), big)
            yield (P, 'idle', ((0.02, (C1, C3), None), (3, (C1,), None)), tuple((i * 0.5, 0.1) for i in range(n)), big)
        for n in (1, 3):
            for tk in ('idle', 'lit', ('run', 0.11), 'own'):
                yield (P, tk, ((0.02, (C1, C3), None), (0.03, (C0,), None)), (), (('failed', n),) + big)
                yield (P, 'idle', ((0.02, (C1, C3), None),), ((0.5, 0.1),), (('failed', n),) + big)
        for n in (1, 6, 45):
            for tk in ('idle', 'lit', ('run', 0.11), 'own'):
                yield (P, tk, ((0.02, (C1, C3), None), (0.03, (C0,), None)), (), (('series', n),) + big)

    def instr():
        yield (P, 'idle', ((0, (C0,), None), (0, (C0,), None)), (), (('instr', True),))
        yield (P, 'idle', ((0, (C0,), None),), ((0, 0),), (('instr', True),))
        yield (P, 'idle', ((0, (C1,), None), (0.1, (C0,), None)), (), (('instr', True),))

    def stall():
        for a, b in ((C0, C0), (C1, C0), (C1, C3)):
            yield (P, 'idle', ((0, (a,), None), (0, (b,), None)), (), (('stall', True),))
            yield (P, ('run', 0.1), ((0.05, (a,), None),), (), (('stall', True),))
            yield (P, 'idle', ((0, (a,), None),), ((0, 0.1),), (('stall', True),))

    def deeper():
        yield (P, 'idle', ((0, (C0,), None), (0, (C0,), None)), (), ())
        yield (P, 'idle', ((0, (C0,), None),), ((0, 0),), ())
        yield (P, 'idle', ((0.02, (C0,), None),), ((0, 0.02),), ())
        yield (P, ('run', 0.02), ((0.02, (C0,), None),), (), ())
        yield (P, 'own', ((0, (C1,), None), (0.05, (C0,), None)), (), ())

    out = [Group('one call', single, 'program'),
           Group('several calls of one caller', several_calls, 'program'),
           Group('other loops are running', others, 'program'),
           Group('long and many calls', long, 'program', chunk=4),
           Group('two callers on an idle loop', races_two, 'explore', bounds=(1, 2) if th else (1,)),
           Group('the loop stops while it is used', races_stop, 'explore', bounds=(1, 2) if th else (1,)),
           Group('loop_in_thread', races_lit, 'explore', bounds=(1, 2) if th else (1,)),
           Group('somebody waits for the caller of loop_in_thread', races_needed, 'explore',
                 bounds=(1, 2) if th else (1,)),
           Group('core scenarios, deeper', deeper, 'explore', bounds=(2, 3) if th else (2,)),
           Group('own loop', own, 'explore', bounds=(1,)),
           Group('three callers', races_three, 'explore', bounds=(1, 2) if th else (1,)),
           Group('cancelled callers', cancelled, 'explore', bounds=(0, 1)),
           Group('bytecode granularity', instr, 'explore', bounds=(1,)),
           Group('time passes while threads are stalled', stall, 'explore', bounds=(1, 2) if th else (1,))]
    return out
